"""The private types and functions the rules speak about, found by what they
are when they have other names.  The type names are replaced in the facts, the
functions get the name the rules use as b['name']."""
import re
def short(s): return re.sub(r'<.*', '', s).split('::')[-1]

def struct(adts, name):
    for k, v in adts.items():
        if k.startswith('lite_') and k.endswith('::' + name): return v
def fields(adts, name):
    v = struct(adts, name)
    return [ty for _, ty in v['variants'][0]['fields']] if v and v['kind'] == 'struct' else []
def named(adts, tys, rx):
    """the one workspace type named at the place the group of rx matches"""
    out = {short(m.group(1)) for t in tys for m in re.finditer(rx, t) if struct(adts, short(m.group(1)))}
    return out.pop() if len(out) == 1 else None

def type_aliases(adts):
    """{name in the source: name in the rules}"""
    al = {}
    def want(name, actual):
        if actual and actual != name and struct(adts, name) is None: al[actual] = name
        return actual
    st = fields(adts, 'InmemoryAccountStore')
    want('AccountDataByCommitment', named(adts, st, r'Vec<[\w:]*(?:RwLock|Mutex)<([\w:]+)>'))
    want('SlotStatus', named(adts, st, r'Map<u64, ([\w:]+)>'))
    want('ProgramIdFilters', named(adts, fields(adts, 'SimpleFilterStore'), r'Map<[\w:]*Pubkey, ([\w:]+)>'))
    tk = fields(adts, 'TokenProgramAccountsStorage')
    want('PartialPubkey', named(adts, tk, r'Map<([\w:]+)<\d+>, '))
    for k in [short(t) for t in tk if re.match(r'[\w:]+$', t)]:
        by = named(adts, fields(adts, k), r'Map<u64, ([\w:]+)>')
        if by:
            want('ProcessedAccountStore', k); want('ProcessedAccountBySlot', by)
            want('ProcessedAccount', named(adts, fields(adts, by), r'Map<[\w:]*Pubkey, ([\w:]+)>'))
    return al

# struct, field the rules speak about, its type, which one of several of that type (by a part of its name, otherwise by its place)
FIELDS = [('AccountDataByCommitment', 'processed_accounts', r'Map<u64, ', '', 0),
          ('AccountDataByCommitment', 'confirmed_account', r'Option<[\w:]*AccountData>', 'confirm', 0),
          ('AccountDataByCommitment', 'finalized_account', r'Option<[\w:]*AccountData>', 'final', 1),
          ('InmemoryAccountStore', 'pubkey_to_account_index', r'DashMap<[^<>]*Pubkey, usize>', '', 0),
          ('InmemoryAccountStore', 'accounts_by_owner', r'DashMap<[^<>]*Pubkey, .*Set<usize>', '', 0)]
def field_aliases(adts):
    al = {}
    for st, name, rx, part, nth in FIELDS:
        v = struct(adts, st)
        if not v or v['kind'] != 'struct': continue
        fs = v['variants'][0]['fields']
        if any(f == name for f, _ in fs): continue
        m = [f for f, ty in fs if re.search(rx, ty)]
        q = [f for f in m if part and part in f.lower()]
        pick = q[0] if len(q) == 1 else m[nth] if nth < len(m) else None
        if pick and pick not in [x[1] for x in FIELDS]: al[pick] = name
    return al

AD, C = r'(?:[\w:]*::)?AccountData', r'(?:[\w:]*::)?Commitment'
ABC, TPS = 'AccountDataByCommitment', 'TokenProgramAccountsStorage'
FNS = [
    (ABC, 'new', [AD, C], '.*' + ABC), (ABC, 'initialize', [AD], '.*' + ABC), (ABC, 'update', ['&mut .*', AD, C], 'bool'),
    (ABC, 'promote_slot_commitment', ['&mut .*', 'u64', C], r'.*Option<.*AccountData.*'),
    (ABC, 'get_account_data', ['&.*', C], r'.*Option<%s>' % AD), (ABC, 'get_account_data_filtered', ['&.*', C, r'&.*AccountFilterType.*'], r'.*Option<%s>' % AD),
    (ABC, 'has_state_since', ['&.*', 'u64', '.*'], 'bool'), (ABC, 'delete', ['&mut .*'], r'\(\)'),
    ('InmemoryAccountStore', 'update_owner_delete_if_necessary', ['&.*', '&' + AD, '&' + AD, '.*', C, '.*'], 'bool'),
    ('Data', 'new', [r'&\[u8\]', '.*CompressionMethod'], '.*Data'), ('Data', 'len', ['&.*'], 'usize'), ('Data', 'data', ['&.*'], '.*Vec<u8>'),
    ('Account', 'from_solana_account', ['.*Account', '.*CompressionMethod'], '.*Account'), ('Account', 'to_solana_account', ['&.*'], '.*solana_sdk::account::Account'),
    ('AccountFilterType', 'allows', ['&.*', r'&\[u8\]'], 'bool'), ('AccountFilter', 'get_rpc_filter', ['&.*'], '.*Option<.*RpcFilterType.*'),
    ('AccountData', 'allows', ['&.*', '.*RpcFilterType'], 'bool'),
    ('TokenAccount', 'to_bytes', ['&.*'], '.*Vec<u8>'), ('TokenAccount', 'from_bytes', [r'&\[u8\]'], '.*TokenAccount'),
    ('TokenAccount', 'get_mint_index_from_binary', [r'&\[u8\]'], 'u32'),
    ('TokenAccount', 'get_pubkey_from_binary', [r'&\[u8\]'], '.*Pubkey', 2), ('TokenAccount', 'get_owner_from_binary', [r'&\[u8\]'], '.*Pubkey', 66),
    ('', 'get_token_program_account_type', ['&' + AD, '.*', '.*'], '.*Result<.*TokenProgramAccountType.*'),
    ('', 'token_program_account_to_solana_account', ['&.*TokenProgramAccountType', 'u64', 'u64', '.*'], r'.*Option<%s>' % AD),
    (TPS, 'add_account_finalized', ['&.*', '.*TokenProgramAccountType'], 'bool'),
    (TPS, 'get_account_finalized', ['&.*', '.*Pubkey'], r'.*Option<%s>' % AD),
    (TPS, 'get_program_accounts_finalized', ['&.*', '.*Pubkey', '.*Option<.*AccountFilterType.*'], '.*Result<.*'),
]
def name_functions(bodies):
    loc = [b for b in bodies.values() if b['local'] and b['kind'] != 'Closure' and not b.get('trait')]
    sn = lambda b: short(b.get('self', {}).get('s', ''))
    have = {(sn(b), b['name']) for b in loc}
    names = {(t, n) for t, n, *_ in FNS}
    for t, n, args, ret, *c in FNS:
        if (t, n) in have: continue
        m = [b for b in loc if sn(b) == t and (t, b['name']) not in names and b['argc'] == len(args)
             and re.fullmatch(ret, b['locals'][0]['ty']['s'].split(' -> ')[-1]) and all(re.fullmatch(a, b['locals'][i + 1]['ty']['s']) for i, a in enumerate(args))]
        if c: m = [b for b in m if re.search(r'(?<!\d)%d(?!\d)' % c[0], str([x['s'] for x in b['blocks'] if x]) + str([x['t'] for x in b['blocks'] if x]))]
        if len(m) == 1: m[0]['name'] = n; have.add((t, n))
