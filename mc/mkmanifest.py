#!/opt/venv/bin/python
"""Development tool (no check runs it): writes properties.jsonl and MANIFEST.json from the table below."""
import importlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
SK = 'bpypolyskel/bpypolyskel.py'
PG = 'bpypolyskel/poly2FacesGraph.py'
EU = 'bpypolyskel/bpyeuclid.py'
TESTS = 'The tests execute some hundred recorded buildings and compare face and vertex counts; '


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why,
            'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                        'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                        'observe_at': list(observe), 'hook_needed': hook}}


ANY = 'every valid footprint: a simple counterclockwise outer contour with any number of disjoint simple clockwise holes'
PROPS = [
 P('C01', 'Every valid footprint gets a roof, in finite time',
   'For every simple footprint polygon with any number of disjoint holes, computing the roof terminates without an exception and returns at least one face.',
   ['inputs'], ANY, TESTS+'totality is a statement about all footprints, and the event loop has many shortcuts that only particular shapes reach.',
   [SK], [('event loop', SK+': skeletonize'), ('split and edge events', SK+': _SLAV.handle_split_event, _SLAV.handle_edge_event'),
          ('spike removal loop', SK+': polygonize')], observe=['polygonize() return value or exception']),
 P('C02', 'Faces are well formed lists of existing vertices',
   'Every returned face is a list of at least three distinct valid vertex indices, no face is returned twice, and every coordinate of every vertex is finite.',
   ['inputs'], ANY, TESTS+'a repeated vertex or an index of -1 keeps the counts that they compare.',
   [SK, PG], [('sink lookup', SK+': polygonize, sIndex'), ('face tracing', PG+': poly2FacesGraph.faces'),
              ('removal of repeated vertices', SK+': end of polygonize')], observe=['returned faces', 'verts']),
 P('C03', 'Every wall edge belongs to exactly one face, which starts with a wall',
   'Every edge of the footprint and of its holes is an edge of exactly one face, in the direction of the footprint; and the first edge of every face is such a wall edge.',
   ['inputs'], ANY, TESTS+'which edge comes first, and the assignment of walls to faces, must hold for every shape, also after spikes were merged.',
   [SK, PG], [('rotation of faces', PG+': poly2FacesGraph.faces'), ('rotation of merged faces', SK+': polygonize, nextOrigIndex')],
   observe=['first two indices of the faces']),
 P('C04', 'The faces tile the footprint without gaps and overlaps',
   'Seen from above, the faces cover the footprint without its holes exactly once: every face is a simple counterclockwise polygon, every inner edge belongs to two faces with opposite directions, and the areas add up to the area of the footprint.',
   ['inputs'], ANY, TESTS+'a hole in the roof or an overlap does not change the counts, and must be excluded for every shape.',
   [SK, PG], [('circular embedding', PG+': poly2FacesGraph.circular_embedding'), ('merge of node clusters', SK+': mergeNodeClusters, mergeCluster'),
              ('ghost edges', SK+': removeGhosts'), ('spikes', SK+': polygonize')], observe=['returned faces', 'verts']),
 P('C05', 'Every face is planar with the requested slope',
   'Every vertex of a face lies in the plane that rises with the requested pitch from each wall edge of that face, up to the merge distance of the library.',
   ['inputs'], ANY, TESTS+'no test looks at the height of a vertex.',
   [SK, EU], [('heights of nodes', SK+': polygonize, skeleton_nodes3D'), ('distances of events', SK+': _LAVertex.next_event'),
              ('dormers', SK+': handle_dormer_event')], observe=['z of verts']),
 P('C06', 'Height parameters scale the roof and never change its plan',
   'With a height the highest roof vertex is exactly that much above the base and takes precedence over a pitch; with a pitch heights are proportional to it; with neither the roof is flat. The base height is added to every vertex, and plan and faces are the same for all of these parameters.',
   ['inputs', 'configurations'], 'every footprint and every combination of height, pitch and base height',
   'The tests use one combination of the parameters per building.', [SK], [('height scale', SK+': polygonize, tan_alpha'), ('zBase', SK+': polygonize')],
   observe=['z of verts', 'returned faces']),
 P('C07', 'Index contract: any memory layout of the blocks gives the same roof',
   'Wherever the blocks of the outer contour and of the holes lie in the vertex list, in any order and with unrelated vertices around them, the roof is the same up to the renumbering. The vertices of the caller stay untouched, new ones are only appended, and a list of faces given by the caller is extended in place behind its old content and returned.',
   ['inputs', 'configurations'], 'every footprint, order and position of its blocks, and content of the given lists',
   'All tests put the outer contour first and the holes directly behind it, in an otherwise empty list.', [SK, PG],
   [('index arithmetic', SK+': polygonize, firstVertIndex, lastVertIndex, holesInfo'), ('firstSkelIndex', SK+': polygonize'), ('first edge', PG+': poly2FacesGraph.faces')],
   observe=['verts', 'faces', 'return value']),
 P('C08', 'Unit vectors given by the caller do not change the roof',
   'If the caller supplies the unit vectors of the edges, the roof is the one that is computed without them, also with holes, and the given vectors are not changed.',
   ['inputs', 'configurations'], 'every footprint with and without holes', 'The tests supply unit vectors for some recorded buildings, and never compare with the result without them.',
   [SK, EU], [('indices of unit vectors', SK+': polygonize, uIndex, lastUIndex'), ('Edge2', EU+': Edge2.__init__')], observe=['faces', 'verts', 'unitVectors']),
 P('C09', 'A result depends on the arguments of its call only',
   'Whatever calls were made before in the same process, valid, failing or with debug output enabled, a call returns what it returns in a fresh process.',
   ['histories'], 'every sequence of calls with any footprints and options', 'Every test function makes one call; the order of the tests is fixed.',
   [SK, PG, EU], [('module globals', SK+': debugOutputs, mcHook'), ('default arguments', SK+': polygonize, _LAVertex')], observe=['results of all calls']),
 P('C10', 'The skeleton is a graph that fits the footprint',
   'Nodes of the skeleton have distinct positions and positive heights, every arc ends at a corner or another node and occurs once, every corner ends one arc, nodes have at least three arcs, and the skeleton is connected with one cycle per hole.',
   ['inputs'], ANY, TESTS+'the structure of the skeleton is not looked at.',
   [SK], [('subtrees of events', SK+': handle_edge_event, handle_split_event, handle_dormer_event'), ('merge', SK+': mergeNodeClusters'), ('ghosts', SK+': removeGhosts')],
   observe=['skeletonize() return value']),
 P('C11', 'Skeleton nodes are equidistant from three walls and no wall is nearer',
   'Every skeleton node lies at the distance given by its height on the inner side of at least three walls, and no wall of the footprint is nearer than that.',
   ['inputs'], ANY, TESTS+'heights of nodes are never compared with the walls.',
   [SK, EU], [('events', SK+': _LAVertex.next_event'), ('order of events', SK+': _EventQueue'), ('dormer height', SK+': handle_dormer_event'), ('merged height', SK+': mergeCluster')],
   observe=['Subtree.source, Subtree.height']),
 P('C12', 'Skeleton arcs cross neither each other nor walls',
   'No two arcs of the skeleton cross, no arc crosses a wall, and all nodes are inside of the footprint.',
   ['inputs'], ANY, 'The tests count crossings for the recorded buildings only.', [SK],
   [('ghosts and spikes', SK+': removeGhosts'), ('eligibility of split events', SK+': _LAVertex.next_event, handle_split_event')], observe=['skeletonize() return value']),
 P('C13', 'Crossing arcs of a skeleton are counted exactly',
   'The check for crossing arcs returns exactly the number of pairs of arcs that meet in a point inside of both, however the arcs are distributed over nodes.',
   ['inputs'], 'every set of arcs', 'The tests call it on recorded skeletons, and expect zero.', [SK], [('checkEdgeCrossing', SK+': checkEdgeCrossing')],
   observe=['return value']),
 P('C14', 'The roof does not depend on the representation of the footprint',
   'Starting the contours at other vertices, permuting the holes, translating, rotating or mirroring the footprint gives the same roof in the new representation.',
   ['inputs', 'configurations'], 'every footprint, start vertex, order of holes and rigid motion', 'Every recorded building is executed in one representation.', [SK, PG, EU],
   [('centering', SK+': polygonize, center'), ('order of simultaneous events', SK+': _EventQueue.getAllEqualDistance'), ('circular patterns', SK+': detectDormers, detectApses')],
   observe=['area and height per roof plane']),
 P('C15', 'The order of simultaneous events does not matter',
   'In whatever order events of the wavefront at the same time are handled, the result is a correct roof, and the same one.',
   ['schedules', 'inputs'], 'every footprint and every order of every batch of simultaneous events', 'Ties are broken by the heap in one way per footprint; the tests see that order only.',
   [SK], [('batches', SK+': _EventQueue.getAllEqualDistance'), ('validity of events', SK+': skeletonize, is_valid')], observe=['faces and heights'],
   hook='mcHook[batch] in skeletonize (commit 95f9327)'),
 P('C16', 'Face tracing returns every face of a plane graph once',
   'For every plane straight-line graph, tracing returns the boundary of every face that has a vertex beyond the contours exactly once, counterclockwise around its inside, and starts it with a contour edge if it has one.',
   ['inputs'], 'every plane straight-line graph with any numbering of vertices and number of contour vertices', 'Recorded roofs are connected graphs with three or four edges per node.',
   [PG], [('circular embedding', PG+': circular_embedding, compare_angles, pseudoangle'), ('tracing', PG+': faces')], observe=['faces()']),
 P('C17', 'Geometry kernel agrees with exact arithmetic',
   'Intersections of lines and rays, distances to lines, segment crossing tests, circles through points, angular order and edge directions agree with exact rational arithmetic, up to single precision; a ray may be met up to 2 mm behind its origin.',
   ['inputs'], 'every configuration of points and directions', 'The kernel has no tests of its own.', [EU, PG],
   [('intersection', EU+': _intersect_line2_line2, Ray2.intsecttest'), ('distance', EU+': Line2.distance'), ('circle', EU+': fitCircle3Points'), ('angles', PG+': pseudoangle')],
   observe=['return values']),
 P('C18', 'The faces are those of the straight skeleton of the footprint',
   'The face of a wall covers exactly the area that this wall sweeps while the footprint shrinks with unit speed from all walls, as defined by the straight skeleton, and ends at the height at which that wall vanishes: no other partition of the footprint into sloped planes, of which there are many, is accepted.',
   ['inputs'], ANY, TESTS+'a wrong order of events often gives the same number of faces, each of them planar, and without gaps.',
   [SK, EU], [('order of events', SK+': _EventQueue, skeletonize'), ('next event of a vertex', SK+': _LAVertex.next_event'), ('split of a wavefront', SK+': _SLAV.handle_split_event')],
   observe=['area and height per roof plane']),
 P('C19', 'Two calls that are active at the same time do not influence each other',
   'If a call is interrupted anywhere, another call with other arguments is executed (by another thread or by a handler), and the first one continues, both return what they return alone.',
   ['schedules'], 'every interleaving of two calls', 'The tests execute one call after the other.', [SK, PG, EU],
   [('module globals', SK+': debugOutputs, EPSILON, mcHook'), ('state of a call', SK+': _SLAV, _EventQueue'), ('graph', PG+': poly2FacesGraph')],
   observe=['results of both calls']),
 P('C20', 'Addon and demo show complete roofs for all settings, whatever was shown before',
   'The Blender addon adds one building per execution, that is closed except for its bottom, with walls from the ground to the eaves and the roof of the footprint on top of them, for every positive scale; registering and unregistering are inverse. The demo always shows exactly the edges of the roof with the pitch of the slider, after any history of slider positions.',
   ['configurations', 'histories'], 'every scale, pitch and history of them', 'There are no tests of these programs, which need Blender and matplotlib.',
   ['__init__.py', 'demo.py', SK], [('building', '__init__.py: add_object'), ('registration', '__init__.py: register, unregister'), ('demo', 'demo.py: create_roof, run_demo')],
   observe=['mesh given to Blender', 'lines given to matplotlib']),
 P('C21', 'The download tool requests every logged building that is not flat, once',
   'For every line id|type|status of the log, whose status is neither "Flat roof" nor "Not hipped roof", the tool makes one request in the order of the log: the query for its type and id, stored as <id>_.osm in the output folder. It makes no other requests.',
   ['inputs'], 'every log file', 'There is no test of this tool.', ['misc/get_osm_files.py'], [('parsing', 'misc/get_osm_files.py')], observe=['calls of urlretrieve']),
 P('C22', 'Every face drains to its wall',
   'Every face of a wall is monotone along the direction of this wall and lies on its inner side, so that water flows down to the eaves without leaving the face.',
   ['inputs'], ANY, TESTS+'the shape of faces is not looked at.', [SK, PG],
   [('split and edge events', SK+': _SLAV.handle_split_event, _SLAV.handle_edge_event'), ('merge', SK+': mergeCluster'), ('tracing', PG+': faces')], observe=['faces and verts']),
 P('C23', 'The roof scales with the footprint',
   'Multiplying all coordinates of a footprint by a factor multiplies all coordinates of its roof, including the heights, by that factor, as long as its details are larger than the tolerances of the library.',
   ['inputs', 'configurations'], 'every footprint and factor', 'Every building is tested with one size.', [SK, EU],
   [('absolute thresholds', SK+': EPSILON, mergeNodeClusters, detectDormers'), ('simultaneous events', SK+': getAllEqualDistance')], observe=['area and height per roof plane']),
 P('C24', 'Additional vertices on straight walls do not change the roof',
   'Inserting vertices into the straight walls of a footprint, at any place that is not near to a corner, leaves every roof plane as it is: the same area and the same height.',
   ['inputs', 'configurations'], 'every footprint and every division of its walls', 'Some recorded buildings have such vertices, but the roof without them was never computed.', [SK, EU],
   [('next event of a vertex', SK+': _LAVertex.next_event'), ('merge of wavefronts', SK+': _SLAV.handle_split_event'), ('spikes', SK+': polygonize')],
   observe=['area and height per roof plane']),
 P('C25', 'Merging near nodes contracts the skeleton',
   'When the skeleton is cleaned up, every group of nodes that are nearer to each other than the merge distance becomes one node that lies between them, also in height, and keeps exactly the arcs of the group to other nodes and corners, each once; all other nodes and arcs stay as they are.',
   ['inputs'], 'every skeleton with groups of near nodes, however the arcs are distributed over them', 'Recorded buildings have few groups, mostly of two nodes, and their arcs are not looked at.', [SK],
   [('merge', SK+': mergeNodeClusters, mergeCluster'), ('groups', SK+': findClusters')], observe=['the skeleton after mergeNodeClusters()']),
 P('C26', 'The debug output is the skeleton of the roof',
   "When debug output 'skeleton' is asked for, the roof stays the same, and the output has one node for every new vertex, at its place and height, and arcs along exactly the inner edges of the faces; without it nothing is written, and other entries of debugOutputs stay untouched.",
   ['inputs', 'configurations'], 'every footprint, with and without debug output', 'The suite never asks for debug output.', [SK],
   [('debug', SK+': polygonize, debugOutputs, skeleton_nodes3D')], observe=["debugOutputs['skeleton']", 'verts', 'faces']),
]
NOT_APPLICABLE = []
HOOK_SUBJECT = 'hook:'


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p)+'\n')
    checks = []
    for p in PROPS:
        c = importlib.import_module('props.'+p['id'].lower()).CHECK
        assert c.id == p['id']
        cmd = '/opt/venv/bin/python mc/run.py '+c.id
        checks.append({'property': c.id, 'quick_cmd': cmd+' --tier quick', 'thorough_cmd': cmd+' --tier thorough',
                       'evidence_file': 'evidence/%s.json' % c.id, 'technique': c.technique, 'level': c.level,
                       'level_note': c.level_note or NOTE})
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout
    hooks = [x.split()[0] for x in log.splitlines() if x.split(' ', 1)[1].startswith(HOOK_SUBJECT)]
    M = {'version': 1, 'setup_cmd': '/opt/venv/bin/python mc/setup.py',
         'hooks': {'guard': 'BPYPOLYSKEL_MC', 'enable': 'the checks set the environment variable BPYPOLYSKEL_MC=1 before they import bpypolyskel from /repo',
                   'source_commits': hooks},
         'checks': checks, 'not_applicable': NOT_APPLICABLE,
         'notes': 'Pure Python: nothing is built, every check imports the working tree of /repo. known_findings.txt lists the genuine defects that were recorded or fixed.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(M, f, indent=1)
        f.write('\n')


NOTE = ('Complete within the enumerated domains (see coverage.domains and coverage.rule of the evidence): every member is executed '
        'on the real code. Trusts mathutils and the certificate in /verif/mc; says nothing about footprints outside of the domains.')

if __name__ == '__main__':
    main()
