"""property id -> (module, function)"""
REGISTRY = {
 'P01': ('privdrop', 'jobs'),
 'P02': ('privdrop', 'pam'),
 'P03': ('privdrop', 'mailenv'),
 'P04': ('signals', 'signals'),
 'P05': ('state', 'saving'),
 'P06': ('account', 'accounting'),
 'P07': ('state', 'wake'),
 'P08': ('children', 'children'),
 'P09': ('children', 'context'),
 'P10': ('children', 'output'),
 'P11': ('lavg', 'queue'),
 'P12': ('lavg', 'due'),
 'P13': ('lavg', 'admission'),
 'P14': ('persist', 'roundtrip'),
 'P15': ('load', 'malformed'),
 'P16': ('load', 'admitted'),
 'P17': ('atomic', 'replaced'),
 'P18': ('sync', 'adopt'),
 'P19': ('sync', 'keep'),
 'P20': ('queues', 'forget'),
 'P21': ('queues', 'fifo'),
 'P22': ('queues', 'ordered'),
 'P23': ('startup', 'startup'),
 'P24': ('install', 'installed'),
 'P25': ('gate', 'permitted'),
 'P26': ('asuser', 'files'),
 'P27': ('dyn', 'requests'),
 'P28': ('conn', 'authenticated'),
 'P29': ('conn', 'watched'),
 'P30': ('fmt', 'formatted'),
 'P31': ('options', 'documented'),
 'P32': ('text', 'fields'),
 'P33': ('entries', 'entries'),
 'P34': ('lists', 'lists'),
 'P35': ('jobenv', 'jobenv'),
 'P36': ('fds', 'closed'),
 'P37': ('fds', 'single'),
 'P38': ('zones', 'zones'),
 'P39': ('nextrun', 'nextrun'),
}
