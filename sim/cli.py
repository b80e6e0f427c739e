import sys
from sim import runner
if sys.argv[1] == 'replay': sys.exit(runner.replay(sys.argv[2]))
if sys.argv[1] == 'determinism':
    from sim import determinism
    a = [x for x in sys.argv[2:] if not x.isdigit()]; n = [int(x) for x in sys.argv[2:] if x.isdigit()]
    sys.exit(determinism.main([x.upper() for x in a] or ['P%02d' % k for k in range(1, 20)]+['P24', 'P26'], n[0] if n else 24))
sys.exit(runner.main(sys.argv[1].upper(), sys.argv[2] if len(sys.argv) > 2 else 'quick'))
