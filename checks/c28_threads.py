import schedule

PROPERTY = 'C28'
SCALE = 16        # times the cases of each facet in quick runs
RULE = ('Two or three calls, mostly alike, in threads that share the '
        'model, the arrays of the same numbers and the settings; the lines '
        'of the package are interleaved after a generated schedule. '
        'Non-trivial: the threads change more than twice.')
ASSUMPTIONS = ['Settings, files and models are not changed while the threads '
               'run, and no two threads write the same file.',
               'Threads change between the lines of the package, not within '
               'a line or in NumPy and SciPy.',
               'Figures are not drawn by threads (Matplotlib does not '
               'support it).']

FACETS = schedule.facets(schedule.thread_facet, 60)
