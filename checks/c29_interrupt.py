import schedule

PROPERTY = 'C29'
SCALE = 12        # times the cases of each facet in quick runs
RULE = ('Calls are interrupted by KeyboardInterrupt, MemoryError or another '
        'exception at a generated line of the package; calls that follow, '
        'mostly alike and with the same arrays, model and settings, are '
        'compared with a pristine process. Non-trivial: a call was '
        'interrupted.')
ASSUMPTIONS = ['Exceptions occur on lines that compute or call something, '
               'and not while an exception is handled.',
               'Interrupted calls that write a file may leave a part of it '
               'behind.']

FACETS = schedule.facets(schedule.fault_facet, 60)
