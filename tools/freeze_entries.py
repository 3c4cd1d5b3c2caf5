import sys, json
sys.path.insert(0, '/verif/sa'); sys.setrecursionlimit(20000)
import p_entry
json.dump(p_entry.freeze(), open(p_entry.SPEC, 'w'), indent=0)
