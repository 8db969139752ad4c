"""driver_main.py DRIVER IN OUT: runs the behaviours of IN (a JSON list) through the named
driver module and appends the recorded events to OUT, one behaviour after the other."""
import sys, json, importlib, signal, os, warnings
warnings.filterwarnings('ignore')

def clean(x):
    # an empty function of the specification is printed as an empty list
    return x

class Hang(BaseException):
    pass

def main():
    name, inp, outp, first, limit = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
    behaviours = json.load(open(inp))
    mod = importlib.import_module(name)
    def on_alarm(*a):
        os._exit(99)                       # a hang: the caller records it
    signal.signal(signal.SIGALRM, on_alarm)
    out = open(outp, 'a')
    sys.stdout = open(os.devnull, 'w')
    for i in range(first, len(behaviours)):
        signal.alarm(limit)
        evs = mod.run(behaviours[i])
        signal.alarm(0)
        out.write('\n'.join(json.dumps(dict(e, b=i)) for e in evs) + '\n')
        out.flush()
    out.close()

main()
