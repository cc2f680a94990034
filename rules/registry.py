RULES = {
    'P28': ('tokquery', ['P28']),
    'P27': ('tokmain', ['P27']),
    'P26': ('tokmain', ['P26']),
    'P24': ('tokslots', ['P24']),
    'P23': ('tokslots', ['P23']),
    'P25': ('tokstore', ['P25']),
    'P22': ('tokens', ['P22']),
    'P21': ('codec', ['P21']),
    'P20': ('tokens', ['P20']),
    'P01': ('states', ['P01']),
    'P02': ('states', ['P02']),
    'P03': ('states', ['P03']),
    'P04': ('store', ['P04']),
    'P05': ('store', ['P05']),
    'P11': ('locks', ['P11']),
    'P12': ('panics', ['P12']),
    'P13': ('ondemand', ['P13']),
    'P14': ('ondemand', ['P14']),
    'P15': ('ondemand', ['P15']),
    'P16': ('ondemand', ['P16']),
    'P17': ('dispatch', ['P17']),
    'P18': ('filters', ['P18']),
    'P19': ('filters', ['P19']),
    'P29': ('convs', ['P29']),
    'P30': ('convs', ['P30']),
    'P31': ('store', ['P31']),
    'P32': ('conc', ['P32']),
    'P06': ('store', ['P06']),
    'P07': ('store', ['P07']),
    'P08': ('store', ['P08', 'P08_since', 'P08_prune']),
    'P09': ('store', ['P09']),
    'P10': ('store', ['P10']),
}
# rules of another property that this property's statement contains as well: (module, [functions], which rule instances)
EXTRA = {
    'P01': [('store', ['P08_prune'], r'^prune\|'),
            ('store', ['P07'], r'the given state is stored|stored at the higher'),
            ('store', ['P10'], r'known account is always updated|reports whether the account changed')],
    'P02': [('states', ['P01'], r'(processed|confirmed|finalized) level|unknown slot leaves|other processed slots'),
            ('store', ['P08_prune'], r'last processed state|only a finalized slot|only states older'),
            ('store', ['P08'], r'all the states of an account are dropped only')],
    'P03': [('states', ['P01'], r'(processed|confirmed|finalized) level'),
            ('states', ['P02'], r'.'),
            ('store', ['P10'], r'index\|get'),
            ('store', ['P05'], r'matching account'),
            ('filters', ['P18'], r'^sub-filter\|')],
    'P04': [('store', ['P05'], r'matching account'),
            ('store', ['P31'], r'exactly the live finalized states'),
            ('store', ['P10'], r'index\|get')],
    'P05': [('states', ['P03'], r'.'),
            ('filters', ['P18'], r'^sub-filter\|'),
            ('store', ['P04'], r'deleted\|query')],
    'P06': [('states', ['P01'], r'\|promote'),
            ('store', ['P07'], r'later notifications|only set by slot notifications|only confirmed or finalized by'),
            ('store', ['P08_prune'], r'^prune\|')],
    'P07': [('store', ['P06'], r'(slot|ancestor): (its level|its status|raised|the accounts)|slots are forgotten|older than the notified|promoted once'),
            ('states', ['P01'], r'\|(update|new): ')],
    'P08': [('states', ['P01'], r'other processed slots'),
            ('store', ['P09'], r'never dropped'),
            ('store', ['P10'], r'dropped exactly with the states')],
    'P09': [('store', ['P10'], r'indexes refer to the entry'),
            ('store', ['P08', 'P08_since'], r'update: (an account leaves|all the states)|newer states'),
            ('conc', ['P32'], r'accounts_by_owner')],
    'P10': [('states', ['P01'], r'update: reports'),
            ('states', ['P03'], r'read\|get:'),
            ('store', ['P08'], r'key is dropped only while|key of a dropped'),
            ('conc', ['P32'], r'pubkey_to_account_index')],
    'P13': [('ondemand', ['P15'], r'registered only for what|when the subscription fails'),
            ('ondemand', ['P14'], r'goes on only when|no load of it is in progress')],
    'P14': [('ondemand', ['P13'], r'marker of the load|waiter is woken')],
    'P15': [('filters', ['P18'], r'^(add\|MutableFilterStore|filter\|MutableFilterStore|query\|MutableFilterStore)'),
            ('ondemand', ['P14'], r'^fresh\|')],
    'P16': [('ondemand', ['P14'], r'asked for what was requested|only when it is known')],
    'P19': [('filters', ['P18'], r'^sub-filter\|')],
    'P20': [('tokstore', ['P25'], r'^encoding\|')],
    'P22': [('convs', ['P29'], r'^state\|')],
    'P23': [('tokens', ['P22'], r'^classify\|')],
    'P24': [('tokmain', ['P26'], r'get_account_finalized|stored\|token account')],
    'P26': [('tokstore', ['P25'], r'^map\|'),
            ('tokens', ['P22'], r'^(reproduce|classify)\|')],
    'P27': [('tokstore', ['P25'], r'^snapshot\|'),
            ('tokens', ['P20'], r'^round trip\|')],
    'P28': [('tokslots', ['P24'], r'^reads\|'),
            ('tokmain', ['P26'], r'listed under'),
            ('filters', ['P18'], r'^sub-filter\|')],
    'P29': [('tokens', ['P22'], r'state$')],
    'P31': [('codec', ['P21'], r'^(account|pairing)\|'),
            ('store', ['P05'], r'matching account')],
    'P32': [('store', ['P10'], r'one critical section'),
            ('store', ['P07'], r'with the account locked'),
            ('tokstore', ['P25'], r'^map\|')],
}
