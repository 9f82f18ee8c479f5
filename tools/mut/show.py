import json,sys
r=[json.loads(l) for l in open('res.jsonl')]
for x in r:
    if x['res']=='nobuild' or x['res'].startswith('killed'): continue
    for a in sys.argv[1:]:
        f,l=a.split(':')
        if f in x['File'] and x['Line']==int(l):
            s=open('/repo/'+x['File'],'rb').read()
            if b'expectedItems == 0' in s and 'bloom' in x['File']: continue
            t=s[:x['From']]+b'<<<'+s[x['From']:x['To']]+b'|'+x['New'].encode()+b'>>>'+s[x['To']:]
            i=t.find(b'<<<'); print('##',x['File'],x['Line'],x['Desc'][:80].replace('\n',' ')); print(t[max(0,i-220):t.find(b'>>>',i)+250].decode(errors='replace')); print()
