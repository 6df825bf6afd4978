"""Which scenario decides which property, and how many runs each tier makes."""
import importlib

# property: (module, function, runs quick, runs thorough)
SCENARIOS = {
    'C01': ('props_io', 'run_c01', 32000, 1600000),
    'C02': ('props_io', 'run_c02', 32000, 1600000),
    'C03': ('props_io', 'run_c03', 60000, 3000000),
    'C04': ('props_io', 'run_c04', 40000, 2000000),
    'C05': ('props_io', 'run_c05', 50000, 2500000),
    'C06': ('props_load', 'run_c06', 60000, 3000000),
    'C07': ('props_load', 'run_c07', 36000, 1800000),
    'C08': ('props_load', 'run_c08', 80000, 4000000),
    'C09': ('props_track', 'run_c09', 50000, 2500000),
    'C10': ('props_track', 'run_c10', 45000, 2250000),
    'C11': ('props_track', 'run_c11', 30000, 1500000),
    'C12': ('props_threads', 'run_c12', 30000, 1500000),
    'C13': ('props_threads', 'run_c13', 24000, 1200000),
    'C14': ('props_io', 'run_c14', 60000, 3000000),
    'C15': ('props_misc', 'run_c15', 24000, 1200000),
    'C16': ('props_misc', 'run_c16', 60000, 3000000),
    'C17': ('props_value', 'run_c17', 35000, 1750000),
    'C18': ('props_value', 'run_c18', 80000, 4000000),
    'C19': ('props_value', 'run_c19', 24000, 1200000),
    'C20': ('props_shared', 'run_c20', 24000, 1200000),
    'C21': ('props_nested', 'run_c21', 24000, 1200000),
    'C22': ('props_host', 'run_c22', 36000, 1800000),
}


def scenario(pid):
    module, name, _, _ = SCENARIOS[pid]
    return getattr(importlib.import_module('sim.' + module), name)


def runs(pid, tier):
    _, _, quick, thorough = SCENARIOS[pid]
    return quick if tier == 'quick' else thorough
