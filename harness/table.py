"""Which models and which families of random programs decide which property."""

ASSUME = ['the recorder harness/exec.py reports what the public interface and the exported XML show',
          'positions and headings are compared within the tolerances of spec/Doc.tla (about 0.01 m, 5e-6 rad)',
          'inputs inside the scope of DESIGN.md']

PROPS = dict(
    C01=dict(models=['Plan'], families=[('plan', 3), ('net', 1), ('shapes', 1), ('gen', 1)], n=420, must=['PEl', 'Export', 'Adjust']),
    C02=dict(models=['Net'], families=[('net', 4), ('shapes', 6), ('conn', 2), ('chain', 2), ('long', 1)], n=560, must=['Adjust', 'Export']),
    C03=dict(models=['Net'], families=[('net', 8), ('conn', 2), ('linksnet', 2), ('long', 1)], n=600, must=['Adjust', 'Adjust/UndefinedRoadNetwork']),
    C04=dict(models=['Lanes'], families=[('chain', 4), ('net', 1)], n=640, must=['Adjust', 'Adjust/NotSameAmountOfLanesError']),
    C05=dict(models=['Conn'], families=[('conn', 4), ('net', 1)], n=560, must=['Adjust']),
    C06=dict(models=['Linker'], families=[('lanes', 1)], n=640, must=['AddSec', 'REl']),
    C07=dict(models=['Sec'], families=[('lanes', 4), ('gen', 1)], n=560, must=['AddL', 'AddR', 'REl']),
    C08=dict(models=['Conn', 'Junc'], families=[('conn', 4), ('junction', 1)], n=560, must=['GenJ', 'Export']),
    C09=dict(models=['Conns', 'Conns.one'], families=[('conns', 4), ('full', 1)], n=560, must=['AddConn', 'JEl']),
    C10=dict(models=['Ids'], families=[('sigobj', 3), ('side', 1)], n=560, must=['AddSig', 'AddObj', 'Side']),
    C11=dict(models=['Links'], families=[('links', 1), ('linksnet', 2)], n=640, must=['Neigh', 'Succ/ValueError', 'Pred/ValueError', 'Neigh/ValueError', 'LkGet']),
    C12=dict(models=['Doc'], families=[('full', 4), ('marks', 1), ('sigobj', 1), ('lanes', 1)], n=560, must=['Export', 'Neigh']),
    C13=dict(models=['Write', 'Write.open'], families=[('write', 1)], n=240, must=['Write', 'Export', 'Show']),
    C14=dict(models=['Geom'], families=[('geo', 1)], n=1600, must=['GStart', 'GBack']),
    C15=dict(models=['Side'], families=[('side', 1)], n=560, must=['Side', 'Side/RoadsAndLanesNotAdjusted']),
    C16=dict(models=['Objs'], families=[('sigobj', 3), ('side', 1)], n=560, must=['Rep', 'OEl', 'Dep']),
    C17=dict(models=['Marks'], families=[('marks', 1)], n=1600, must=['Mark', 'RLine']),
    C18=dict(models=['Junc'], families=[('junction', 1)], n=400, must=['GenJR', 'GenJR/NotSameAmountOfLanesError']),
    C19=dict(models=['Ctor'], families=[('ctor', 1)], n=1600, must=['Arc/ValueError', 'Plan/NotEnoughInputArguments', 'Spiral/ToManyOptionalArguments', 'Poly/ValueError']),
    C20=dict(models=['Gen'], families=[('gen', 1)], n=640, must=['GenRoad', 'GenStraight', 'GenCloth']),
    C21=dict(models=['Iso'], families=[('two', 3), ('alike', 1)], n=360, must=['Export']),
    C22=dict(models=['Geom'], families=[('geo', 3), ('plan', 1)], n=1200, must=['GEnd']),
    C23=dict(models=['Match'], families=[('apart', 1)], n=480, must=['Place', 'Match', 'Match/NotSameAmountOfLanesError']),
)
