"""Case counts, coverage rules, stated assumptions (no import of the simulator here)."""
COUNTS = {
    'C01': {'quick': 32000, 'thorough': 1600000},
    'C02': {'quick': 20000, 'thorough': 1200000},
    'C03': {'quick': 28000, 'thorough': 1400000},
    'C04': {'quick': 16000, 'thorough': 700000},
    'C05': {'quick': 8000, 'thorough': 400000},
    'C06': {'quick': 6000, 'thorough': 150000},
    'C07': {'quick': 10000, 'thorough': 500000},
    'C08': {'quick': 10000, 'thorough': 500000},
    'C09': {'quick': 14000, 'thorough': 600000},
    'C10': {'quick': 18000, 'thorough': 900000},
    'C11': {'quick': 18000, 'thorough': 900000},
    'C12': {'quick': 24000, 'thorough': 1200000},
    'C13': {'quick': 32000, 'thorough': 1600000},
    'C14': {'quick': 8000, 'thorough': 400000},
    'C15': {'quick': 16000, 'thorough': 800000},
    'C16': {'quick': 12000, 'thorough': 800000},
    'C17': {'quick': 5000, 'thorough': 250000},
    'C18': {'quick': 14000, 'thorough': 600000},
}

_BUILD = ('a case is one generated corpus, settings, vocabulary/queries/patterns and scheduler parameters, run by the real '
          'handler under a seeded schedule and compared with an independent sequential reference; ')
_NT = ('distinct_nontrivial counts distinct hashes of the complete event log (process, operation, detail) of the simulated '
       'runs in which a fault fired or more than one process ran')
_HIST = ('a case is one generated history of saves and loads, every step in its own simulated process, run once without faults '
         'to record its operations and once with faults placed at recorded operations; every load is compared with the '
         'versions the history allows; ')

RULES = {
    'C01': _BUILD + _NT, 'C02': _BUILD + _NT, 'C03': _BUILD + _NT, 'C04': _BUILD + _NT,
    'C05': 'a case is one to three generated frequency matrices clustered by the real single-core and multi-core code (side by '
           'side, in sequence, or after one was killed) under a seeded schedule; ' + _NT,
    'C06': 'a case is one generated build or clustering, run once without faults to record its operations, then several times '
           'with faults placed at recorded operations (operation classes drawn first) or with a damaged corpus file; every '
           'run must end, with an exception or the exact result; ' + _NT,
    'C07': 'a case is one generated build, attempted one to five times with kills or errors at recorded operations and then '
           'run to its end; exact result, no own temporary files, corpus unchanged; ' + _NT,
    'C08': 'a case is two or three sessions building at the same time in shared directories that hold files of the user, some '
           'killed; every surviving session exact, every foreign file untouched; ' + _NT,
    'C09': _HIST + _NT, 'C11': _HIST + _NT,
    'C10': 'a case is one generated directory of saved matrices loaded by several simulated processes at once, on a plain, '
           'write-protected or full disk, beside unrelated saves and killed loads; exact results, no file changed; ' + _NT,
    'C12': 'a case is one generated object and a sequence of saves, loads and changes to it in one process, run without faults '
           'and with I/O errors, memory errors or interrupts at recorded operations; the object is compared before and after '
           'every save and with what is loaded; ' + _NT,
    'C13': 'a case is a sequence of selections from one source under given states of the random generators; '
           'distinct_nontrivial counts distinct (source size, selected members) of selections that are neither empty nor all',
    'C14': 'a case is one or two handlers sharing their arguments, called two to seven times with varying file selections, '
           'run without faults and with faults placed at recorded operations; every call exact, arguments and earlier results '
           'unchanged; ' + _NT,
    'C15': 'a case is a set of generated settings, list and template files, read by one to three simulated processes that may also '
           'start up, run without faults and with faults placed at recorded operations; every read exact or raising; ' + _NT,
    'C16': 'a case is a sequence of exports (matrices, concordances, tokens of a real token build) in one process, run without '
           'faults and with faults placed at recorded operations; every export that returned complete, objects unchanged; ' + _NT,
    'C17': 'a case is one generated study of eight to ten steps, every step saved and loaded back, run undisturbed and then carried on '
           'over one to five sessions with kills and errors at recorded operations, one after the other or two at a time; every '
           'step compared with its definition; ' + _NT,
    'C18': 'a case is one to three sessions that start, log (also from forked processes, pools and threads), change the log file and build, '
           'run without faults and with kills, interrupts and I/O errors placed around recorded log writes; log files and console compared '
           'with a record of every logging call kept outside; ' + _NT,
}

ASSUMPTIONS = [
    'processes interact only through the simulated operations (queues, pools, files, clocks); code between two of them is atomic',
    'a killed process loses its memory and unflushed buffers; completed write calls survive (no power loss of the page cache)',
    'multiprocessing behaves as documented for the fork start method',
    'sampled schedules and faults: a clean run is evidence, not proof',
]


def batch_check(pid, notes):
    return None

_SIM = 'deterministic simulation: seeded schedules of simulated processes against a reference-model oracle'
_FAULT = 'deterministic simulation with fault injection: seeded schedules, kills and I/O faults placed at recorded operations'
TECHNIQUE = {
    'C01': _SIM, 'C02': _SIM, 'C03': _SIM, 'C04': _SIM,
    'C05': 'deterministic simulation with kills: seeded pool schedules, multi-core result against single-core result',
    'C06': _FAULT, 'C07': 'deterministic simulation with crash injection: session kills and I/O faults, then recovery checked exactly',
    'C08': 'deterministic simulation of concurrent sessions on one disk with kills, against exact results and file ownership',
    'C09': _FAULT + '; saved versions as reference model', 'C10': 'deterministic simulation of concurrent loads with faults, kills, full and write-protected disks',
    'C11': _FAULT + '; saved versions as reference model', 'C12': 'deterministic simulation with I/O, memory and interrupt faults at recorded operations of saves',
    'C13': 'deterministic simulation: the random source is the only nondeterminism and is driven by seeds',
    'C14': _FAULT + '; each call against the reference model',
    'C15': _FAULT + ' of reads, processes starting at once; generated content as reference',
    'C16': _FAULT + ' of exports; exported text against the object',
    'C17': _FAULT + ' of resumed multi-session studies; every step against its definition',
    'C18': _FAULT + ' of logging sessions; log files against a record of the logging calls',
}
_B = ('Thousands of seeded (corpus, settings, schedule) executions of the real handlers per run, exactly compared with an independent '
      'sequential reference; every violation is minimised and replayed. Sampling, not proof; trusts the simulated multiprocessing layer.')
_F = ('Thousands of seeded executions of the real code per run with faults aimed at operations it really performs; every violation is '
      'minimised and replayed. Sampling, not proof; trusts the simulated multiprocessing, file-system and crash model.')
NOTES = {
    'C01': _B, 'C02': _B, 'C03': _B, 'C04': _B,
    'C05': 'The single-core result of the same code is the oracle, so an error common to both paths is not seen here. ' + _F,
    'C06': _F, 'C07': _F, 'C08': _F, 'C09': _F, 'C10': _F, 'C11': _F, 'C12': _F,
    'C13': 'No schedule or fault matters here: simulation controls the random generators, the only nondeterminism. Sampling, not proof.',
    'C14': _F, 'C15': _F, 'C16': _F, 'C17': _F, 'C18': _F,
}
_PURE = 'a pure function of its input: no schedule, clock, fault, crash or history enters, so simulation has nothing to decide'
NOT_APPLICABLE = {
    'P01': 'Association measures are ' + _PURE + '.',
    'P02': 'Distance, similarity and rank computation is ' + _PURE + '.',
    'P03': 'Selecting, reordering, dropping and merging are ' + _PURE + ' (merging as used by the parallel builds is exercised under C02).',
    'P04': 'Vocabulary selection and arithmetic are ' + _PURE + ' (random selection is C13).',
    'P05': 'What a template or macro file denotes is ' + _PURE + ' (reading such files whole or not at all is C15, matching them in the parallel build C04).',
    'P07': 'Token weighting is ' + _PURE + '.',
}
