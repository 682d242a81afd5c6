import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check, multiprocessing as mp, time, queue, importlib
pid,name=sys.argv[1:3]
q=queue.Queue()
check.scenario_worker(pid,name,'quick',time.time()+600,q)
r=q.get()
for o in r['obls']: print(o['status'],o['backend'],o['secs'],o['label'][:150], o['detail'][:1500] if o['status']!='proved' else '')
print(r['undecided'], r['paths'], r['secs'], r.get('trace'))
