#!/usr/bin/env python3
# show.py FILE [kind] [n]: decode cases ([hi,lo] pairs) for reading
import json,struct,sys
def dec(v):
    if isinstance(v,list):
        if len(v)==2 and all(isinstance(e,int) for e in v): return struct.unpack('>d',struct.pack('>ii',*v))[0]
        return [dec(e) for e in v]
    if isinstance(v,dict): return {k:dec(e) for k,e in v.items()}
    return v
if __name__=="__main__":
    n=0
    for l in open(sys.argv[1]):
        r=dec(json.loads(l))
        if len(sys.argv)>2 and r.get('kind')!=sys.argv[2] and sys.argv[2]!='-': continue
        print(json.dumps(r)); n+=1
        if len(sys.argv)>3 and n>=int(sys.argv[3]): break
