# Writes /verif/MANIFEST.json: claimed checks and the properties that are not claimed.
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
na=json.load(open(here+'/tools/na.json'))
claimed=open(here+'/tools/claimed.txt').read().split()
tech={
 'C01':'deterministic simulation: seeded scheduler over goroutines with race detection, history compared with a lone caller',
 'C04':'deterministic simulation: seeded operation histories over guarded input buffers with fault-injected input bytes',
 'C09':'deterministic simulation with storage fault injection: damaged bytes, step and memory budgets',
 'C10':'deterministic simulation with storage fault injection: damaged containers compared with the undamaged font',
 'C11':'deterministic simulation of stream delivery with injected read faults',
 'C12':'deterministic simulation: configured memory limit against declared and real sizes, allocation accounting',
 'C13':'deterministic simulation of the file system: injected errors, short and torn writes, crash and restart',
 'C14':'deterministic simulation of the file system: injected errors and short reads, compared with a reference search',
 'C15':'deterministic simulation: seeded scheduler over goroutines with race detection, history compared with a lone caller',
 'C16':'deterministic simulation of the command line tool in a simulated file system with injected I/O faults',
 'C17':'deterministic simulation of the command line tool in a simulated file system with injected I/O faults and crashes',
 'C18':'deterministic simulation of the file system with injected faults, open-file accounting',
}
default='deterministic simulation: seeded edit histories under simulated clock, map order and file system, against a reference model'
checks=[]
for p in props:
    i=p['id']
    if i in claimed:
        checks.append({'property':i,'quick_cmd':'./check %s quick'%i,'thorough_cmd':'./check %s thorough'%i,'evidence_file':'evidence/%s.json'%i,
          'technique':tech.get(i,default),'level':'exploration',
          'level_note':'Seeded search over histories, schedules and faults; not exhaustive. Each seed is one exactly repeatable run; failures are minimised and replayed.'})
nas=[]
for p in props:
    i=p['id']
    if i not in claimed:
        nas.append({'property':i,'reason':na.get(i,'The check is still being built.')})
json.dump({'version':1,'setup_cmd':'./setup','hooks':{'guard':'none','enable':'No hooks in /repo: tools/build.sh instruments a scratch copy of the working tree (tools/instr).','source_commits':[]},
  'checks':checks,'not_applicable':nas,'notes':'See DESIGN.md. Replays: ./check --replay FILE.'},open(here+'/MANIFEST.json','w'),indent=1)
