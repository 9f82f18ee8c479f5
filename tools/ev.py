import json,sys
for i in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{i}.json')); c=e['coverage']
    print(i,e['wall_s'],'states',c['states'],'trans',c['transitions'],'execs',c['traces_validated_against_impl'],'full',c['exhaustive'],'nondet',c['nondeterministic_executions'],c['note'])
    for k,v in c['parts'].items(): print('   ',k,v)
