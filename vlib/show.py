"""show extracted functions: python3 vlib/show.py PATH..."""
import json,sys
x=json.load(open('/tmp/x/dev/x.json'))
for p in sys.argv[1:]:
    for k,f in x['fns'].items():
        if k==p or (p.endswith('*') and k.startswith(p[:-1])):
            print('=====',k,f['name'],f['generics'],f['params'],'->',f['ret'],'heaps',f['heaps'],'cmps',f['cmps'],'views',f['views'],'mut',f['mutrefs'])
            ind=0
            for b in f['body']:
                print(b)
