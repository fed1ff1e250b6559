"""property -> the parts of its check, run in order until one reports a violation"""
import rtcheck, compcheck
CHECKS = {p: [rtcheck.run] for p in rtcheck.PROFILES}
TECH = 'TLA+ specification; traces of the real library under a controlled scheduler validated by TLC'
NOTE_RT = ('Every explored execution of the real code is a behaviour of the TLA+ specification. Assumes sequentially consistent interleavings and '
           'trusts the controlled scheduler, the compiler and TLC; executions are a large seeded sample of programs and schedules, not all of them.')
TECHNIQUE, NOTE, NA = {}, {}, {}
CHECKS['C14'] = [compcheck.sync]
CHECKS['C15'] = [compcheck.lst]
CHECKS['C16'] = [compcheck.bits]
CHECKS['C17'] = [compcheck.arena]
CHECKS['C18'] = [compcheck.tags]
CHECKS['C20'] = [compcheck.mpi]
CHECKS['C11'] = [compcheck.algebra]
CHECKS['C12'] = [compcheck.fields]
CHECKS['C13'] = [compcheck.props]
CHECKS['C22'] = [compcheck.props]
