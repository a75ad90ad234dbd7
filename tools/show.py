import json,sys
d=json.load(open(sys.argv[1]));print(json.dumps(d['plan']));print(d['violation']);print('\n'.join(d['event_log_tail'][-int(sys.argv[2]) if len(sys.argv)>2 else -25:]))
