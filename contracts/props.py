"""Which functions, contracts and harness decide which property."""
import sym
import lists
import ents
import topo
import mesh
import attr
import sets
import par

LAYERS = {'list': lists.CONCRETE, 'ent': ents.CONCRETE, 'topo': topo.CONCRETE, 'mesh': mesh.CONCRETE, 'attr': attr.CONCRETE, 'set': sets.CONCRETE, 'par': par.CONCRETE, 'ghost': {}}
AXIOMS = {'list': sym.AX_POW2 + sym.AX_CNT, 'ent': [], 'ghost': [], 'mesh': [], 'attr': [], 'set': [], 'topo': sym.AX_BITS, 'par': sym.AX_BITS}

COMMON_ASSUMPTIONS = [
    'allocation succeeds (malloc/calloc/realloc do not return NULL)',
    'int arithmetic outside bit-vector functions is mathematical; sizes are below 2^25 (assumed by the contracts as "room")',
    'objects reached through differently typed fields do not overlap (type-based memory families); distinct heap objects do not alias',
    'termination is not proved',
    'an MSTK_Report(...,MSTK_FATAL) call ends the execution',
]

PROPS = {}
LISTF = ['List_New', 'List_Num_Entries', 'List_Size_Raw', 'List_Entry', 'List_Entry_Raw', 'List_Next_Entry', 'List_Contains', 'List_Locate',
         'List_Add', 'List_ChknAdd', 'List_Inserti', 'List_Insert', 'List_Rem', 'List_Remi', 'List_Remi_Raw', 'List_Replace', 'List_Replacei',
         'List_Copy', 'List_Cat', 'List_Entries', 'List_Delete', 'List_Sort', 'List_Search']
PROPS['L01'] = dict(
    proved=[('list', ['List_Inserti', 'List_Compress', 'List_Insert', 'List_Cat', 'List_Remi', 'List_Replacei'] + [f for f in LISTF if f not in ('List_Inserti', 'List_Compress', 'List_Insert', 'List_Cat', 'List_Remi', 'List_Replacei', 'List_Next_Entry', 'List_Delete')])],
    bounded=['List_RemSorted'],
    native='lists')
PROPS['I01'] = dict(
    proved=[('list', ['List_Cat', 'List_Remi', 'List_Replacei', 'List_Next_Entry', 'List_Rem', 'List_Remi_Raw', 'List_Add', 'List_ChknAdd', 'List_Replace', 'List_Size_Raw', 'List_Copy'])],
    bounded=[], native='iter')
PROPS['E01'] = dict(
    proved=[('ent', ents.DIRECT), ('ghost', ents.WRAPPERS)],
    bounded=[], native='entity')

VF = topo.FUNCS
PROPS['V01'] = dict(proved=[('topo', VF + topo.VDEL)], thorough=[('topo', topo.MVR)],
                    bounded=['MV_Regions (proved in the thorough tier)', 'MV_Num_Faces', 'MV_Num_Regions', 'ME_Num_Regions'], native='vertedge')
PROPS['F01'] = dict(proved=[('topo', topo.FACE + topo.FDEL)], bounded=[], native='faceloop')
PROPS['F02'] = dict(proved=[('topo', topo.EDIT)], bounded=['MF_Replace_Edges', 'MF_Replace_Edges_i'], native='faceedit')
PROPS['R01'] = dict(proved=[('topo', topo.REG + topo.RDEL)], bounded=['MR_Replace_Faces'], native='regedit')
PROPS['R02'] = dict(level='exploration', proved=[('topo', topo.RVE)], bounded=['MR_Set_Vertices'], native='stdorder')
PROPS['M01'] = dict(proved=[('mesh', mesh.REGI + mesh.REM + mesh.ENT + mesh.DEL)], bounded=[], native='registry')
PROPS['M02'] = dict(proved=[('mesh', ['MESH_Enable_LocalIDSearch'] + [f for f in mesh.LOOK if f != 'MESH_Enable_LocalIDSearch'] + [f for f in mesh.REGI if '_Add_' in f] + mesh.REM)], bounded=[], native='registry', timeout=20)
PROPS['A01'] = dict(proved=[('attr', attr.VAL + attr.MESHA)], bounded=[], native='attrib')
PROPS['S01'] = dict(proved=[('set', ['MSets_Intersect', 'MSets_Union', 'MSets_Subtract'] + sets.ONE + [f for f in sets.ALG if f not in ('MSets_Intersect', 'MSets_Union', 'MSets_Subtract')])], bounded=[], native='sets', timeout=40)
PROPS['P01'] = dict(proved=[('par', par.PAR)], bounded=[], native='par')
PROPS['M03'] = dict(proved=[('mesh', ['MESH_Vol_Build_GhostLists', 'MESH_Enable_GlobalIDSearch', 'MESH_Surf_Build_GhostLists'] + [f for f in mesh.GSE if f != 'MESH_Enable_GlobalIDSearch'] + mesh.GFG + mesh.GH + mesh.REM + mesh.DEL)],
                    thorough=[('mesh', mesh.SGL)], bounded=['MESH_Build_GhostLists', 'MESH_Sort_GhostLists (proved in the thorough tier)'], native='ghost', timeout=20)
