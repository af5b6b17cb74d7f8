"""property id -> check function(tier) -> Report (modules are imported on first use)"""
import importlib


class _Checks(dict):
    def __missing__(self, k):
        mod, fn = TABLE[k]
        return getattr(importlib.import_module('sa.checks.' + mod), fn)


TABLE = {
    'V01': ('crypto_checks', 'v01'), 'V06': ('crypto_checks', 'v06'), 'V02': ('gate_checks', 'v02'), 'V03': ('gate_checks', 'v03'),
    'V04': ('gate_checks', 'v04'), 'V05': ('gate_checks', 'v05'),
    'V07': ('memory', 'v07'), 'V08': ('memory', 'v08'), 'V09': ('memory', 'v09'), 'V10': ('memory', 'v10'),
    'V11': ('memory', 'v11'), 'V14': ('memory', 'v14'), 'V12': ('voucher_checks', 'v12'), 'V13': ('voucher_checks', 'v13'), 'V15': ('config_checks', 'v15'),
    'V16': ('server_checks', 'v16'), 'V17': ('server_checks', 'v17'), 'V18': ('server_checks', 'v18'), 'V21': ('cli_checks', 'v21'), 'V19': ('concurrency_checks', 'v19'), 'V20': ('concurrency_checks', 'v20'),
}
TABLE.update({'V25': ('cert_checks', 'v25'), 'V24': ('file_checks', 'v24'), 'V23': ('identity_checks', 'v23'), 'V22': ('flow_checks', 'v22'), 'V26': ('flow_checks', 'v26'), 'V27': ('log_checks', 'v27'), 'V28': ('memory', 'v28')})
CHECKS = _Checks()
