"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, C, H = 'inputs', 'configurations', 'histories'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe,
         state=None, hook=None):
    files = ['taupy/%s.py' % f for f in files.split()]
    a = {'files': files,
         'mechanism': [{'name': n, 'where': 'taupy/' + w} for n, w in mech],
         'observe_at': observe, 'hook_needed': hook}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': 'taupy/' + w}
                      for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'A .tvel file is read into exactly the layers it describes',
     'Reading a .tvel file yields, for every pair of consecutive depth rows '
     'at different depths, one layer carrying those two rows\' depths, '
     'velocities and densities, in order and without gaps, whatever '
     'comments, blank lines and spacing the file contains. The model '
     'radius is the deepest row and the model name comes from the file name. '
     'Rows that do not have exactly four columns, S velocities above the P '
     'velocity and files of another type are rejected.',
     [I], 'for every .tvel text: any values, row count, repeated depths, '
     'comment styles and numbers of columns',
     'Tests read two shipped files only; no test compares the layers with '
     'the file for other contents.',
     'VelocityModel', [('tvel reader', 'VelocityModel.py:readTVelFile')],
     ['VelocityModel.readVelocityFile(path): layers, radiusOfEarth, '
      'modelName'])
prop('C02', 'Velocity and density lookups follow the layered model',
     'Looking up P or S velocity or density just above or just below a depth '
     'returns the linear interpolation between the top and bottom values of '
     'the layer on that side, and depths with no such layer are rejected. A '
     'layer itself gives the values at its top and bottom, and no value for '
     'an unknown property.',
     [I], 'for every layered model and every depth, including boundaries',
     'Tests look up no depth of their own; continuous inputs and boundary '
     'sides cannot be sampled exhaustively.',
     'VelocityModel VelocityLayer',
     [('lookup', 'VelocityModel.py:evaluateAbove/evaluateBelow'),
      ('interpolation', 'VelocityLayer.py:evaluateAt')],
     ['VelocityModel.evaluateAbove/evaluateBelow'])
prop('C03', 'Velocity model validation accepts exactly well-formed models',
     'A velocity model passes validation exactly when its radius and outer '
     'radius are positive, the inner radius is non-negative and below the '
     'outer one, 0 <= Moho <= core-mantle boundary <= inner-core boundary '
     'with the latter two positive, each layer starts at the depth where the '
     'one above ends and has positive thickness, P velocities are positive, '
     'S velocities are non-negative and zero at both ends of a layer or at '
     'neither; otherwise it is rejected.',
     [I], 'for every combination of layer depths, velocities and boundary '
     'depths', 'Tests validate two good models; no test covers the space of '
     'malformed ones.',
     'VelocityModel', [('validation', 'VelocityModel.py:validate')],
     ['VelocityModel.validate()'])
prop('C04', 'Moho, CMB and inner-core boundary are real discontinuities',
     'The list of discontinuity depths contains exactly the surface, the '
     'centre and every depth where P or S velocity jumps. The Moho, '
     'core-mantle and inner-core boundaries reported for a model are the '
     'discontinuities closest to the nominal depths (35, 2889 and 5153.9 km '
     'for a file), the inner-core one only '
     'at a fluid-to-solid transition, and otherwise default to the surface '
     'or the centre.',
     [I, C], 'for every layering and every nominal boundary depth',
     'Tests see only iasp91/ak135-like models whose nominal depths already '
     'match.',
     'VelocityModel', [('discontinuities', 'VelocityModel.py:getDisconDepths'),
                       ('assignment', 'VelocityModel.py:fixDisconDepths')],
     ['VelocityModel.getDisconDepths()', 'mohoDepth, cmbDepth, iocbDepth'])
prop('C05', 'Velocity and slowness convert consistently for any radius',
     'Slowness at any depth is the distance from the centre of this '
     'particular model divided by the velocity there, whatever the radius of '
     'the model, and interpolation from slowness back to velocity and the '
     'search for the depth of a given slowness invert that relation.',
     [I, C], 'for every model radius, layer, depth, wave type and ray '
     'parameter', 'All tests use a 6371 km radius and a few depths.',
     'SlownessLayer SlownessModel',
     [('layer conversion', 'SlownessLayer.py:create_from_vlayer'),
      ('model conversion', 'SlownessModel.py:toSlowness/toVelocity'),
      ('inverse', 'SlownessModel.py:findDepth/interpolate')],
     ['create_from_vlayer', 'SlownessModel.toSlowness', 'findDepth'])
prop('C06', 'Critical depths, low-velocity and fluid zones are all found',
     'The critical depths of a model are exactly its surface, centre, '
     'velocity discontinuities and local slowness extrema. Fluid ranges are '
     'exactly the depth ranges without S velocity, and high-slowness ranges '
     'are exactly those where slowness exceeds the smallest slowness above '
     'them, each recorded with that smallest slowness.',
     [I], 'for every velocity profile, with any pattern of jumps, '
     'gradients and fluid layers',
     'Tests pin only the counts for one smooth reference model.',
     'SlownessModel', [('zone search', 'SlownessModel.py:findCriticalPoints')],
     ['criticalDepths', 'highSlownessLayerDepthsP/S', 'fluidLayerDepths'])
prop('C07', 'Slowness sampling is contiguous, consistent and fine enough',
     'However a model is sampled, the P and S slowness layers cover it from '
     'surface to centre contiguously, with every slowness jump represented '
     'by a zero-thickness layer, following the model\'s velocities. The '
     'slownesses at the edges of the velocity layers of one wave type are '
     'sampled wherever they occur in the other wave type\'s profile of the '
     'solid parts, so that no ray of the model turns inside a layer. The '
     'requested maximum depth step is respected, and so is the largest '
     'distance between neighbouring rays of one wave type and the error of '
     'interpolating between them.',
     [I, C], 'for every velocity profile and every sampling setting',
     'Tests compare sampled layer counts for one model and one setting.',
     'SlownessModel',
     [('sampling', 'SlownessModel.py:coarseSample, rayParamIncCheck, '
       'depthIncCheck, distanceCheck'),
      ('insertion', 'SlownessModel.py:addSlowness')],
     ['PLayers, SLayers of a SlownessModel'])
prop('C08', 'Layer lookups and turning limits match the slowness profile',
     'The layer reported above or below a depth is the one that contains it '
     'on that side, in-fluid and in-high-slowness queries agree with the '
     'recorded ranges, and the smallest ray parameter that turns (or turns or '
     'reflects) at or above a depth is the minimum over the slowness profile '
     'that the depth and the low-velocity zones allow.',
     [I], 'for every slowness profile and depth, at and off boundaries',
     'Tests query a handful of depths in one model.',
     'SlownessModel',
     [('lookup', 'SlownessModel.py:layerNumberAbove/Below'),
      ('zones', 'SlownessModel.py:depthInFluid, depthInHighSlowness'),
      ('limits', 'SlownessModel.py:getMinTurnRayParam, getMinRayParam')],
     ['the query methods\' results'])
prop('C09', 'Time and distance through one layer obey ray theory',
     'For a ray crossing a layer, distance is the derivative-consistent '
     'spherical ray-theory value and time equals tau plus ray parameter times '
     'distance; vertical, centre-crossing, constant-velocity and '
     'zero-thickness layers give their exact closed forms. Increments are '
     'never negative, and a ray that turns inside the layer is rejected.',
     [I], 'for every layer geometry, slowness pair and ray parameter',
     'Tests see a single pair of numbers; the special cases depend on exact '
     'equalities of inputs.',
     'SlownessModel SlownessLayer',
     [('increments', 'SlownessModel.py:layerTimeDist'),
      ('power law', 'SlownessLayer.py:bullenRadialSlowness')],
     ['SlownessModel.layerTimeDist', 'SlownessLayer.bullenRadialSlowness'])
prop('C10', 'Slowness at depth and depth of slowness are inverse',
     'Inside a slowness layer, the slowness interpolated at a depth follows '
     'the layer\'s power law, lies between the layer\'s end slownesses and '
     'returns the end values at the ends; the depth found for a slowness is '
     'inside the layer and maps back to that slowness. A ray parameter '
     'outside the layer\'s range is rejected.',
     [I], 'for every layer and every depth or slowness within it',
     'Tests evaluate one layer.',
     'SlownessLayer', [('interpolant', 'SlownessLayer.py:evaluateAtBullen, '
                        'bullenDepthFor')],
     ['SlownessLayer.evaluateAtBullen', 'SlownessLayer.bullenDepthFor'])
prop('C11', 'Travel-time branches tile the Earth and sum its layers',
     'Branches run from critical depth to critical depth without gap for '
     'both wave types, the ray parameters tabulated are the strictly '
     'decreasing sequence of new slowness minima, and for each ray parameter '
     'a branch\'s time and distance are the sums over exactly the layers of '
     'the branch above the turning depth, with tau = time - p * distance. '
     'Each branch records the largest ray parameter that can enter it and '
     'the smallest that turn or reflect within it.',
     [I], 'for every slowness model', 'Tests compare final times of two '
     'reference models at one distance.',
     'TauModel TauBranch',
     [('table', 'TauModel.py:calcTauIncFrom'),
      ('branch', 'TauBranch.py:createBranch, calcTimeDist')],
     ['TauModel.rayParams, tauBranches, moho/cmb/iocbBranch'])
prop('C12', 'Moving the source to depth preserves the Earth model',
     'Correcting a model for a source depth splits at most the one branch '
     'containing it, exactly at that depth, for both wave types; the two '
     'parts add up to the original at every ray parameter, all other '
     'branches are unchanged and boundary branch numbers still designate the '
     'same depths. A source on an existing boundary changes nothing but the '
     'source position, and layer tables stay contiguous and aligned with the '
     'critical depths.',
     [I], 'for every model and source depth, on, near and off boundaries',
     'Tests use one source depth per model.',
     'TauModel TauBranch SlownessModel',
     [('correction', 'TauModel.py:depthCorrect, splitBranch, findBranch'),
      ('difference', 'TauBranch.py:difference'),
      ('layer split', 'SlownessModel.py:splitLayer, fixOtherLayers, '
       'fixCriticalDepths')],
     ['TauModel.depthCorrect(depth)'])
prop('C13', 'Queries leave the loaded model and each other untouched',
     'Computing results for a source depth never alters the loaded surface '
     'model or any previously corrected model, so results depend only on the '
     'query and not on the queries made before it.',
     [H, I], 'for every sequence of queries at any source depths',
     'Tests make one query per process object and never compare a repeated '
     'query.',
     'TauModel SlownessModel TauP_Time tau',
     [('copying', 'TauModel.py:splitBranch'),
      ('copying', 'SlownessModel.py:splitLayer'),
      ('phase cache', 'TauP_Time.py:depthCorrect, recalcPhases')],
     ['the model object before and after a query', 'repeated query results'],
     state=[('noDisconDepths', 'depths that are not real discontinuities',
             'TauModel.py')])
prop('C14', 'Phase names split into exactly their legs',
     'Every phase name is either split into legs that concatenate back to '
     'the name and are all members of the documented leg vocabulary, '
     'including multi-digit depths and reflection markers, or is rejected '
     'with a model error; no other failure and no looping is possible.',
     [I], 'for every string over the phase alphabet', 'Tests use a handful '
     'of names.',
     'SeismicPhase', [('tokenizer', 'SeismicPhase.py:legPuller')],
     ['legs of a SeismicPhase', 'puristName'])
prop('C15', 'A phase\'s branch sequence is a connected physical path',
     'A phase accepted for a model follows branches that start at the '
     'source, end at the surface, and join each other: consecutive branches '
     'are neighbours traversed in the same direction, or the same branch '
     'traversed back after turning or reflecting. Wave types follow the '
     'name: P-type and S-type legs where named, never S in fluid, and turns, '
     'reflections and conversions happen only at the depths the name calls '
     'for.',
     [I, C], 'for every phase name within a length bound and every layout '
     'of source, Moho, core and extra boundaries',
     'Tests parse a handful of phases for one layout.',
     'SeismicPhase', [('parser', 'SeismicPhase.py:parseName, addToBranch')],
     ['SeismicPhase.branchSeq, waveType, downGoing, legAction'])
prop('C16', 'A phase exists exactly for ray parameters its path allows',
     'The ray-parameter range of a phase is the largest range for which '
     'every leg can do what its name says: rays that must turn within a '
     'region turn there, rays that must cross a region are not turned back '
     'in it, and reflected and converted rays can reach their boundary. A '
     'phase with an empty range yields no arrivals.',
     [I, C], 'for every model layout, every branch ray-parameter limits and '
     'every phase name in the bound',
     'Tests exercise fixed models only.',
     'SeismicPhase', [('limits', 'SeismicPhase.py:addToBranch, '
                       'phaseConversion, parseName')],
     ['SeismicPhase.minRayParam, maxRayParam'])
prop('C17', 'A phase curve is the sum of its branch traversals',
     'At every tabulated ray parameter in its range, a phase\'s time and '
     'distance are the sums over the branches it traverses, each counted as '
     'often as it is traversed. Diffracted and head-wave phases extend the '
     'grazing ray along the boundary by time equal to ray parameter times '
     'distance, up to their documented maximum, and low-velocity zones '
     'appear as shadow-zone breaks, never as bridging segments.',
     [I], 'for every branch table, phase and ray-parameter range',
     'Tests check final arrival times at one distance.',
     'SeismicPhase', [('summation', 'SeismicPhase.py:sumBranches')],
     ['SeismicPhase.rayParams, dist, time, minDistance, maxDistance'])
prop('C18', 'Arrivals at a distance are sound and complete',
     'For any distance in degrees, the arrivals of a phase are exactly the '
     'points where its time-distance curve meets that distance, its '
     'mirror image or either plus full circles, each interpolated linearly '
     'between the bracketing samples in time and ray parameter. Shadow-zone '
     'gaps produce none, and distances outside the phase\'s range give no '
     'arrival.',
     [I], 'for every curve and every distance, negative or beyond 360 '
     'included', 'Tests use one distance and compare a few phases.',
     'SeismicPhase', [('search', 'SeismicPhase.py:calcTime'),
                      ('interpolation', 'SeismicPhase.py:'
                       'linearInterpArrival')],
     ['SeismicPhase.calcTime(degrees)'])
prop('C19', 'Take-off and incident angles follow Snell\'s law',
     'The take-off angle satisfies Snell\'s law with the velocity on the side '
     'of the source into which the ray leaves, for the wave type of the '
     'first leg, negative exactly for upgoing rays; the incident angle does '
     'with the surface velocity of the last leg\'s wave type. Reported '
     'distances in degrees and per-degree ray parameters are exact unit '
     'conversions, the reduced distance lying in 0 to 180.',
     [I], 'for every arrival: velocities, source depth, ray parameter, '
     'first and last legs, distance',
     'Tests compare printed angles for a few phases.',
     'SeismicPhase Arrival', [('angles', 'SeismicPhase.py:'
                               'linearInterpArrival'),
                              ('conversions', 'Arrival.py')],
     ['Arrival.takeoffAngle, incidentAngle, getDistDeg, getModuloDistDeg'])
prop('C20', 'Pierce points trace the arrival from source to receiver',
     'The pierce points of an arrival start at the source, are ordered in '
     'time and distance, lie at the branch boundaries or turning depth the '
     'ray crosses in the order it crosses them, and end at the surface with '
     'the arrival\'s own time and distance. Segments along a boundary for '
     'diffracted and head waves appear as two points at that boundary.',
     [I], 'for every phase, branch table and arrival',
     'Pierce tests do not run reliably; they compare a few printed files.',
     'SeismicPhase Arrival TauP_Pierce',
     [('pierce', 'SeismicPhase.py:calcPierceFromArrival, '
       'handleHeadOrDiffractedWave'), ('access', 'Arrival.py:getPierce')],
     ['Arrival.pierce', 'TauPyModel.get_pierce_points'])
prop('C21', 'Ray paths are continuous and consistent with the model',
     'A ray path starts at the source, passes each slowness layer of each '
     'traversed branch once in travel order, at the depth where the ray '
     'leaves it or turns, with time and distance accumulating the layer '
     'increments and never decreasing, and ends at the surface.',
     [I], 'for every branch, ray parameter and direction',
     'Path tests do not run reliably and only compare printed files.',
     'TauBranch SeismicPhase', [('branch path', 'TauBranch.py:path'),
                                ('assembly', 'SeismicPhase.py:'
                                 'calcPathFromArrival')],
     ['Arrival.path', 'TauBranch.path'])
prop('C22', 'Phase lists expand to the requested phases, once each',
     'A requested phase list, with any mix of plain names and group names, '
     'expands to every plain name given and every member of the groups given, '
     'in order and without duplicates; group names include exactly their '
     'documented families and larger groups contain the smaller ones.',
     [I], 'for every list of phase names and group keywords',
     'Tests use one explicit list and one group.',
     'TauP_Time', [('expansion', 'TauP_Time.py:parsePhaseList, '
                    'getPhaseNames')],
     ['TauP_Time.phaseNames'])
prop('C23', 'Epicentral distance is the great-circle angle',
     'The distance computed from station and event coordinates is the '
     'great-circle angle between them in degrees: symmetric, between 0 and '
     '180, zero exactly for coincident points, independent of whole turns of '
     'longitude, and defined for every pair of valid coordinates.',
     [I], 'for all latitudes and longitudes, coincident and antipodal '
     'points included', 'No stable test uses coordinates.',
     'TauP_Time', [('formula', 'TauP_Time.py:great_circle_dist')],
     ['TauP_Time.degrees after a coordinate query'])
prop('C24', 'Results contain every arrival of every requested phase, sorted',
     'A travel-time query returns the arrivals of all requested phases that '
     'exist for the model, none twice and none left over from earlier '
     'queries, in order of increasing time; phases the model does not '
     'support are skipped without affecting the others. Pierce and path '
     'queries take the same arguments and cover the same arrivals. No list '
     'of phases or an empty one stands for all phases.',
     [I, H], 'for every phase list, distance and sequence of calls on one '
     'calculator', 'Tests issue one query per object.',
     'TauP_Time TauP_Pierce TauP_Path tau',
     [('driver', 'TauP_Time.py:run, calculate, calcTime, recalcPhases'),
      ('entry points', 'tau.py:TauPyModel')],
     ['TauP_Time.arrivals', 'TauPyModel.get_travel_times/'
      'get_pierce_points/get_ray_paths'])
prop('C25', 'Surface-wave phases travel at their stated speed',
     'A phase named by a horizontal speed in km/s arrives, at every '
     'distance, at the time a wave takes along the surface of this model at '
     'that speed, with the matching ray parameter, whatever the source '
     'depth, and its pierce points and path run along the surface.',
     [I, C], 'for every speed, model radius and distance',
     'No test uses a surface-wave phase.',
     'SeismicPhase', [('special case', 'SeismicPhase.py:sumBranches')],
     ['SeismicPhase.calcTime of a kmps phase'])
prop('C26', 'A saved model loads back unchanged',
     'A model built from a velocity file and written out is loaded back, by '
     'name or by path, as an equal model, so results do not depend on '
     'whether the model was just built or loaded. A name or path always '
     'stands for the model written there last, whatever other models exist '
     'or were loaded before.',
     [C, H], 'for every model written and loaded, every name and every order '
     'of writing and loading',
     'The build writes two models; equality after loading is never checked.',
     'TauModel TauModelLoader TauP_Create utils',
     [('save', 'TauModel.py:writeModel'), ('load', 'TauModelLoader.py:load'),
      ('names', 'utils.py:_get_model_filename'),
      ('build', 'TauP_Create.py:loadVMod/run')],
     ['TauModelLoader.load(name or path)', 'tau.TauPyModel(model=...)'])
prop('C27', 'Printed listings show the computed results',
     'With printing asked for, a query lists every arrival of its result '
     'once, in order, with its own distance, source depth, name, time, ray '
     'parameter and angles in the stated units. A pierce listing holds '
     'every pierce point, or exactly those of the selected kinds (turning, '
     'underside, both), and a path listing every path point, joined by '
     'steps of at most the maximal increment along straight lines and cut '
     'at the maximal time. Distances the long way round are negative, and '
     'printing changes no result.',
     [I], 'for every set of arrivals, pierce points and path points',
     'Tests compare a few printed files for one model; selections, cuts and '
     'the long way round are not among them.',
     'TauP_Time TauP_Pierce TauP_Path',
     [('table', 'TauP_Time.py:printResult'),
      ('pierce listing', 'TauP_Pierce.py:printResult/getCommentLine'),
      ('path listing', 'TauP_Path.py:printResult')],
     ['standard output of TauP_Time/TauP_Pierce/TauP_Path.run(True) and of '
      'TauPyModel.get_*(print_output=True)'])

NOT_APPLICABLE = {}

CHECKED = {}   # id -> (bounds note)
NOTES_DEFAULT = (
    'Bounded symbolic execution of the real functions under the current '
    'tree; every path within the stated bounds is covered for all values of '
    'the symbolic inputs, decided by z3. Floats are modelled as reals with '
    'tolerances; counterexamples are replayed on the unmodified code before '
    'they are reported. ')


def main():
    sys.path.insert(0, V)
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        mod = os.path.join(V, 'checks', i.lower() + '.py')
        if i in NOT_APPLICABLE:
            na.append({'property': i, 'reason': NOT_APPLICABLE[i]})
        elif not os.path.exists(mod):
            na.append({'property': i, 'reason': 'check not built yet'})
        else:
            import importlib
            m = importlib.import_module('checks.' + i.lower())
            checks.append({
                'property': i,
                'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick'
                             % i,
                'thorough_cmd': '/opt/venv/bin/python check.py %s --tier '
                                'thorough' % i,
                'technique': 'symbolic execution of the real Python code '
                             'with proxy values; z3 decides every branch '
                             'and assertion; counterexamples replayed',
                'level': 'model_checking',
                'level_note': NOTES_DEFAULT + 'Assumes: ' +
                '; '.join(getattr(m, 'ASSUMPTIONS', []))})
    json.dump({'version': 1,
               'setup_cmd': '/opt/venv/bin/python -c "import symx.core"',
               'checks': checks, 'not_applicable': na,
               'notes': 'See DESIGN.md. No hooks in /repo are needed.'},
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print('%d properties, %d checks' % (len(P), len(checks)))


main()
