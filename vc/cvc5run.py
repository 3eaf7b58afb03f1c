"""cvc5 as a second back end: check(smt2 text, timeout ms) -> 'unsat' | 'sat' | 'unknown'.
The solver runs in a child process, so that a time or memory limit can end it."""
import subprocess, sys, os, resource
seen = 0        # queries offered to the cross-check in this process
spent = 0.0     # seconds it has taken

SCRIPT = r'''
import sys, cvc5
text = sys.stdin.read()
tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
s = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
s.setOption('tlimit-per', sys.argv[1])
p = cvc5.InputParser(s)
p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
sm = p.getSymbolManager()
out = ''
while True:
    c = p.nextCommand()
    if c.isNull(): break
    out = c.invoke(s, sm) or out
print(out.strip())
'''

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

def check(text, timeout=20000):
    text = '(set-logic ALL)\n' + text
    try:
        r = subprocess.run([sys.executable, '-c', SCRIPT, str(int(timeout))], input=text, capture_output=True, text=True, timeout=timeout / 1000 + 10, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return 'unknown'
    o = r.stdout.strip().splitlines()
    o = o[-1] if o else ''
    return o if o in ('sat', 'unsat') else 'unknown'
