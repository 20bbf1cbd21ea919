import json,sys
d=json.load(open(sys.argv[1]))
print(len(d['fns']),len(d['tys']),len(d['allocs']),d['roots'])
for f in d['fns']:
    if len(sys.argv)>2 and sys.argv[2]=='-m' and 'blocks' in f: continue
    print(f['kind'],len(f['blocks']) if 'blocks' in f else '-',f['def'], '|', f['args'] )
