#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below. Run by hand; no check runs it."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PS = 'parcels/particlesets/'


def P(id, title, statement, over, text, why, files, mech, tech=None, note=None, level='model_checking'):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                tech=tech, note=note, level=level)


PROPS = [
    P('C01', 'Particle sets hold exactly the right particles, values kept together',
      'After any sequence of creating, adding, merging, removing (by index, identifier or condition) and executing with deletions, a '
      'particle set holds exactly the particles the sequence implies, each once, and every particle keeps all of '
      'its own variable values. Identifiers are unique and never reused within a session. Lookups and removals by index or identifier '
      'reach exactly the particles named, and other sets are unaffected.',
      ['histories', 'inputs'], 'all operation sequences up to a depth over small sets, both execution modes',
      'tests try one or two hand-picked operations; the guarantee is about every order and combination of them',
      [PS + 'collectionsoa.py', PS + 'particlesetsoa.py', PS + 'baseparticleset.py'],
      [('add/remove/merge/lookup of the structure-of-arrays collection', PS + 'collectionsoa.py'), ('set-level operations', PS + 'particlesetsoa.py')],
      'explicit-state exploration of the real operations against a list model', None),
    P('C02', 'The exported trajectory file is exactly the history of the run',
      'For every run with an output file, the exported file contains for each particle one observation per output instant (start, every '
      'output interval, end) at which it is released and present, plus one at its deletion (only that one when writing on deletion only), in '
      'time order, each with the values the particle had at that instant; nothing else is in the file. Variables written once carry the '
      'value of the first observation of the same particle. This does not depend on the names of the output file and directories.',
      ['histories', 'configurations'], 'all runs over the listed release, deletion, interval, precision and continuation domains',
      'tests sample a handful of runs; interplay of releases, deletions, intervals and continued runs is combinatorial',
      ['parcels/particlefile.py', PS + 'collectionsoa.py', PS + 'baseparticleset.py', 'parcels/kernel.py'],
      [('selection of particles to write', PS + 'collectionsoa.py:toDictionary'), ('export', 'parcels/particlefile.py:export')],
      'exhaustive enumeration of runs on the real code against a history model', None),
    P('C03', 'Output written before a crash can be recovered',
      'If a run with an output file is interrupted at any moment, including in the middle of writing a file, the conversion tool applied to '
      'the temporary output directory produces a file with all observations of every output instant that had been written completely '
      'before the interruption, and no wrong values.',
      ['crash_points', 'histories'], 'every crash point and torn write of the file operations of a run',
      'no test interrupts a run; the guarantee quantifies over all crash points',
      ['parcels/particlefile.py', 'parcels/scripts/convert_npydir_to_netcdf.py'],
      [('buffering to temporary files', 'parcels/particlefile.py:write'), ('conversion', 'parcels/scripts/convert_npydir_to_netcdf.py')],
      'enumeration of all crash points and torn writes of the real writer, then real conversion', None, 'fault_enumeration'),
    P('C04', 'Every particle is stepped exactly over its time span',
      'In every run, forward or backward, each released particle is advanced by consecutive kernel calls that start at its release time, '
      'leave no gap or overlap, are never longer than the requested step, are shorter only in order to end exactly at an output, callback, '
      'release or end instant, and end exactly at the end of the run. At every output or callback instant all released particles are '
      'exactly at that instant, and a particle whose release lies after the end is not touched.',
      ['inputs', 'configurations', 'histories'], 'all combinations of step, direction, release times, run length, output and callback intervals, continued runs',
      'tests use a few step/interval combinations that divide each other; the guarantee is for all',
      [PS + 'baseparticleset.py', 'parcels/kernel.py', 'parcels/compilation/codegenerator.py'],
      [('event loop', PS + 'baseparticleset.py:execute'), ('particle loop', 'parcels/kernel.py:execute_python'), ('generated particle loop', 'parcels/compilation/codegenerator.py:LoopGenerator')],
      'exhaustive enumeration of runs on the real code against a stepping model', None),
    P('C05', 'Splitting or interrupting a run does not change its result',
      'For a deterministic kernel, executing a span in one call or in several consecutive calls, with or without output and callbacks, and '
      'with any output or callback interval that is a multiple of the step, gives identical particles. The same holds for the order in which '
      'independent particles are listed and for which other particles are in the set.',
      ['histories', 'configurations', 'schedules'], 'all ways to cut a run into pieces at step boundaries and all particle orders, within bounds',
      'tests compare at most one split; the guarantee is over all cuts and orders',
      [PS + 'baseparticleset.py', 'parcels/kernel.py', 'parcels/compilation/codegenerator.py'],
      [('event loop', PS + 'baseparticleset.py:execute'), ('state reset between calls', 'parcels/kernel.py:execute')],
      'exhaustive enumeration of compositions of a run, states compared bit for bit', None),
    P('C06', 'A failed kernel call changes nothing and is handled as prescribed',
      'A kernel call that ends in an error leaves the particle as it was before the call and then invokes exactly the handler registered for '
      'that error (through-surface falls back to the out-of-bounds handler), after which the particle continues from that instant to the end '
      'of the run; without a handler the matching exception is raised. A kernel that changes the step is re-run from the same state with the '
      'new step, a deletion removes exactly that particle, and no outcome of one particle affects another.',
      ['histories', 'fault_sequences'], 'all sequences of outcomes over two scripted steps with up to two attempts each, all recovery policies listed',
      'tests use one error at one place; sequences of outcomes and neighbours are not explored',
      ['parcels/kernel.py', 'parcels/compilation/codegenerator.py', 'parcels/tools/statuscodes.py', PS + 'particlesetsoa.py'],
      [('outcome handling', 'parcels/kernel.py:execute'), ('roll back', 'parcels/compilation/codegenerator.py:LoopGenerator'), ('default handlers', 'parcels/tools/statuscodes.py')],
      'explicit-state exploration of outcome scripts on the real code against a protocol model', None),
    P('C07', 'Compiled and interpreted kernels compute the same',
      'Every kernel of the supported language gives, in compiled (JIT) mode, the same particle values, deletions and errors as the same Python '
      'function in interpreted (SciPy) mode, up to floating-point rounding.',
      ['programs', 'inputs'], 'all programs of a bounded grammar over a grid of inputs',
      'tests sample a dozen kernels; the guarantee is for every kernel',
      ['parcels/compilation/codegenerator.py', 'parcels/compilation/codecompiler.py', 'parcels/kernel.py', 'parcels/include/parcels.h'],
      [('translation', 'parcels/compilation/codegenerator.py:KernelGenerator')],
      'exhaustive enumeration of bounded programs, executed in both modes and by Python itself', None),
    P('C08', 'Field sampling returns the defined interpolation of the data',
      'For every supported grid type and interpolation method, sampling a field inside its domain gives the value that the method defines '
      'from the surrounding data in space and time: node data are reproduced, linear methods reproduce linear functions, nearest returns the '
      'nearest node, B-grid, C-grid and land-masked methods follow their definition (on a cell boundary, where some methods jump, the value of an adjacent cell). Interpreted sampling, compiled sampling and '
      'direct evaluation agree.',
      ['inputs', 'configurations'], 'all grid types x methods x sample lattice (nodes, faces, interior, edges), both modes',
      'tests sample random points of smooth fields with loose tolerances',
      ['parcels/field.py', 'parcels/grid.py', 'parcels/include/parcels.h', 'parcels/include/index_search.h'],
      [('python interpolation', 'parcels/field.py'), ('C interpolation', 'parcels/include/parcels.h')],
      'exhaustive enumeration over a lattice, real code in both modes against an independent reference', None),
    P('C09', 'Positions are classified and located independently of history',
      'Whether a position counts as inside a field, out of bounds, through the surface, or outside the time range depends only on the position '
      'and the field, in both modes, and so does the sampled value: never on where the same or another particle was sampled before.',
      ['histories', 'inputs'], 'all pairs and triples of sample positions from a lattice covering inside, edge and outside',
      'tests sample each position from a fresh particle; the cell search keeps memory of earlier samples',
      ['parcels/field.py', 'parcels/include/index_search.h', 'parcels/include/parcels.h'],
      [('cell search', 'parcels/include/index_search.h'), ('cell search', 'parcels/field.py:search_indices')],
      'exhaustive exploration of sampling histories on the real code', None),
    P('C10', 'Loading time slices on demand gives the same as loading everything',
      'Simulations on data loaded a few time slices at a time from files give exactly the results of simulations on the same data fully in '
      'memory, forward and backward, for every file layout, step, run split and field mix.',
      ['histories', 'configurations'], 'all access histories (direction, step, continuation, file split) within bounds',
      'tests use one forward run',
      ['parcels/field.py', 'parcels/fieldset.py', 'parcels/grid.py', 'parcels/fieldfilebuffer.py', PS + 'baseparticleset.py'],
      [('time chunk computation', 'parcels/fieldset.py:computeTimeChunk'), ('', 'parcels/grid.py:computeTimeChunk')],
      'exhaustive enumeration of access histories, deferred run against in-memory run', None),
    P('C11', 'Chunked loading gives the same results for every chunk size',
      'Simulations on data loaded in spatial chunks give exactly the results of simulations without chunking, for every chunk size, position '
      'history and mix of chunked fields.',
      ['histories', 'configurations'], 'all chunk shapes of a small grid x sampling histories crossing chunk borders',
      'tests use a few large chunk sizes', ['parcels/field.py', 'parcels/grid.py', 'parcels/fieldfilebuffer.py', 'parcels/include/parcels.h', 'parcels/kernel.py'],
      [('chunk bookkeeping', 'parcels/field.py:chunk_data'), ('chunk access in C', 'parcels/include/parcels.h')],
      'exhaustive enumeration of chunk shapes and access histories against the unchunked run', None),
    P('C12', 'Repeated release adds the same particles at every interval',
      'A particle set with a repeat interval receives, at every multiple of the interval from its start that the run reaches, one new group of '
      'particles with the original initial positions and variable values and new identifiers, whatever the particles did meanwhile, '
      'how the run is split into calls, and in which direction it goes.',
      ['histories', 'configurations'], 'all combinations of interval, step, direction, movement, deletion, split',
      'tests check counts of one or two runs', [PS + 'particlesetsoa.py', PS + 'baseparticleset.py'],
      [('remembering initial conditions', PS + 'particlesetsoa.py:__init__'), ('release', PS + 'baseparticleset.py:execute')],
      'exhaustive enumeration of runs against a release model', None),
    P('C13', 'Summed and nested fields behave as the sum and the first match',
      'Sampling a sum of fields or vector fields gives the sum of the samples of its members, and sampling a nested field gives the sample of '
      'the first member whose domain contains the position, in both modes, in any expression; an error arises only if a summed member, or all '
      'nested members, fail. Building such a field leaves its members unchanged.',
      ['inputs', 'programs'], 'all member combinations x positions x expression contexts within bounds',
      'tests use one constant combination', ['parcels/field.py', 'parcels/compilation/codegenerator.py', 'parcels/fieldset.py'],
      [('', 'parcels/field.py:SummedField'), ('', 'parcels/field.py:NestedField'), ('generated code', 'parcels/compilation/codegenerator.py')],
      'exhaustive enumeration of combinations on the real code against member samples', None),
    P('C14', 'Restarting from an output file restores the particles',
      'A particle set created from an output file has exactly the last observation (or the requested one) of every particle still present, with '
      'identifiers and variables restored, and continuing from it gives the same trajectories as the uninterrupted run.',
      ['histories', 'crash_points'], 'all restart instants of all runs over small domains', 'tests restart once',
      [PS + 'particlesetsoa.py', 'parcels/particlefile.py'], [('', PS + 'particlesetsoa.py:from_particlefile')],
      'exhaustive enumeration of restart points, continued run against the uninterrupted run', None),
    P('C15', 'Dates and relative times convert consistently',
      'Whatever form times are given in (seconds, dates of any supported calendar, time differences) for fields, particles, start, end, step '
      'and intervals, the simulation is the one given by the corresponding seconds since the time origin, and the output file states times '
      'that decode to the same dates.',
      ['inputs', 'configurations'], 'all combinations of time representations and calendars listed', 'tests use one representation at a time',
      ['parcels/tools/converters.py', 'parcels/field.py', PS + 'particlesetsoa.py', PS + 'baseparticleset.py', 'parcels/particlefile.py'],
      [('', 'parcels/tools/converters.py:TimeConverter')], 'exhaustive enumeration of representations against plain seconds', None),
    P('C16', 'Unit conversion is applied exactly once, in both modes',
      'On spherical meshes sampled zonal and meridional velocities (and their diffusivities) are converted from metres to degrees with the '
      'cosine of latitude, exactly once, in both modes, in any access form and through sums and nesting; on flat meshes nothing is '
      'converted; converting back gives the original value.',
      ['inputs', 'configurations'], 'all field names x meshes x access forms x latitudes listed', 'tests check advection in one form',
      ['parcels/tools/converters.py', 'parcels/field.py', 'parcels/fieldset.py', 'parcels/compilation/codegenerator.py', 'parcels/include/parcels.h'],
      [('', 'parcels/tools/converters.py'), ('', 'parcels/compilation/codegenerator.py')], 'exhaustive enumeration of access forms against the definition', None),
    P('C17', 'Periodic halos extend the field by wrapping around',
      'Adding a zonal and/or meridional halo extends coordinates and data by the wrapped-around values, for every halo size, grid and data '
      'layout, up to halos as large as the grid; inside the original domain sampling is unchanged, and in the halo it equals the sample one '
      'period away. Components of vector, summed and nested fields are extended like any other field.',
      ['inputs', 'configurations'], 'all grids, halo sizes and directions listed, in memory and deferred', 'tests check one halo size',
      ['parcels/field.py', 'parcels/grid.py', 'parcels/fieldset.py'], [('', 'parcels/field.py:add_periodic_halo'), ('', 'parcels/grid.py:add_periodic_halo')],
      'exhaustive enumeration of halo configurations against wrapped samples', None),
    P('C18', 'Fields, field sets, particle sets and classes do not interfere',
      'What a field samples and what a particle set computes does not depend on which other fields, field sets, particle classes or particle '
      'sets exist, were created, sampled or executed before or in between.',
      ['histories', 'configurations'], 'all interleavings of creating, sampling and executing objects from small domains',
      'tests build one world at a time', ['parcels/gridset.py', 'parcels/particle.py', 'parcels/fieldset.py', 'parcels/kernel.py', PS + 'particlesetsoa.py'],
      [('grid sharing', 'parcels/gridset.py:add_grid'), ('variables shared by classes', 'parcels/particle.py')],
      'exhaustive exploration of interleavings against isolated execution', None),
    P('C19', 'Times outside the data are repeated, held or rejected as configured',
      'For a time outside the range of the data a field gives the periodic value if declared periodic, the nearest end value if extrapolation '
      'is allowed, and a time-extrapolation error otherwise; inside the range it always gives the interpolated value. This holds in both modes, '
      'forward and backward, before and after the range, and over many periods.',
      ['inputs', 'histories'], 'all times of a lattice around and far outside the range x configuration x mode', 'tests use one period',
      ['parcels/field.py', 'parcels/grid.py', 'parcels/include/index_search.h', 'parcels/fieldset.py'], [('', 'parcels/field.py:time_index'), ('', 'parcels/include/index_search.h:search_time_index')],
      'exhaustive enumeration of times and configurations on the real code against the definition', None),
    P('C20', 'Random numbers are reproducible and in range',
      'After setting the seed, the random functions available in kernels give the same sequence again, in both modes, whatever was drawn '
      'before and however the draws are spread over calls; every draw lies in the documented range (integers: from the lower limit up to, not including, the upper), and the draws follow the distribution '
      'they are named after (mean, spread).',
      ['histories', 'inputs'], 'all short sequences of seeding and drawing', 'tests check one seed', ['parcels/rng.py', 'parcels/include/random.h', 'parcels/compilation/codegenerator.py'],
      [('', 'parcels/rng.py'), ('C generators', 'parcels/include/random.h')], 'exhaustive exploration of draw sequences', None),
    P('C21', 'Combined kernels act as their parts in sequence',
      'Executing a combination of kernels is executing the parts one after the other for each step, in the order written, independently of how the '
      'combination was grouped, in both modes; an early end of one part ends the combined call; combining does not change the parts.',
      ['programs'], 'all sequences of up to four kernels from a set x groupings', 'tests combine two kernels',
      ['parcels/kernel.py', PS + 'baseparticleset.py'], [('', 'parcels/kernel.py:merge')], 'exhaustive enumeration of combinations against sequential composition', None),
    P('C22', 'The same data in any layout or after saving gives the same field',
      'A field built from the same data samples identically however the data are given: as arrays, transposed arrays, xarray data or netCDF '
      'files; in one or several files; loaded at once or on demand; under any dimension and variable names; with one- or two-dimensional '
      'coordinates of the same grid; with descending latitudes; with or without singleton dimensions; packed or in another number type; '
      'restricted to a range of indices that contains the positions; or written out by Parcels and read back.',
      ['inputs', 'configurations'], 'all constructor and layout combinations listed', 'tests compare a few',
      ['parcels/field.py', 'parcels/fieldset.py', 'parcels/fieldfilebuffer.py', 'parcels/grid.py'],
      [('reading and reshaping', 'parcels/field.py:from_netcdf'), ('writing', 'parcels/field.py:write'), ('file access', 'parcels/fieldfilebuffer.py')],
      'exhaustive enumeration of layouts, samples compared', None),
    P('C23', 'The built-in kernels compute the scheme or formula they are named after',
      'Each built-in kernel does exactly what its name says, in both modes, forward and backward, in two and three dimensions: Euler, '
      'fourth-order Runge-Kutta (2D and 3D), adaptive Runge-Kutta-Fehlberg with its step control, analytical advection along steady '
      'C-grid flow, the diffusion kernels (uniform, Milstein, Euler-Maruyama) from the same random increments, and the sea-water formulas '
      '(UNESCO and polynomial density, potential temperature, adiabatic gradient, pressure).',
      ['inputs', 'configurations'], 'all kernels x fields x directions x dimensions listed', 'tests compare end positions with loose tolerances',
      ['parcels/kernels/advection.py', 'parcels/kernels/advectiondiffusion.py', 'parcels/kernels/EOSseawaterproperties.py', 'parcels/kernels/TEOSseawaterdensity.py'],
      [('advection', 'parcels/kernels/advection.py'), ('diffusion', 'parcels/kernels/advectiondiffusion.py'), ('sea water', 'parcels/kernels/EOSseawaterproperties.py')],
      'exhaustive enumeration against independent integrators', None),
    P('C24', 'Adjustments of field data apply exactly once to every value',
      'Limits, replacement of missing values, scaling factors, functions applied to loaded data (compute_on_defer) and depth levels taken from another field act '
      'exactly once on every value sampled: however the data are loaded (given as arrays, read at once, on demand or in chunks), before or after a halo is added, '
      'whenever they are set, and in every run on the field set; limits refer to the data as given, before scaling. Arrays given by the user and other fields are unaffected.',
      ['histories', 'configurations', 'inputs'], 'all adjustments x loading x moment x halo x mode, and all sequences of runs listed', 'tests adjust one field and sample it once',
      ['parcels/field.py', 'parcels/fieldset.py', 'parcels/gridset.py'],
      [('scaling, limits', 'parcels/field.py:rescale_and_set_minmax'), ('depth levels', 'parcels/field.py:set_depth_from_field'), ('loading', 'parcels/fieldset.py:computeTimeChunk')],
      'exhaustive enumeration of adjustments and run histories on the real code against the adjusted data', None),
    P('C25', 'Particles are released where asked and counted in the cells they are in',
      'Every way of creating a particle set puts the particles, with their times and values, where it was told to: lists, arrays and scalars, lines (evenly '
      'spaced, both ends included), and random releases from a field (only in cells of non-zero value, each as often as its value says). The density of a set '
      'counts each particle, or the value given for it, in the cell of the field that contains its current position, on every kind of grid and whatever '
      'happened to the set before, and counting changes neither the set nor any later run.',
      ['histories', 'inputs', 'configurations'], 'all short histories of a particle set x grid kind x weights x scaling; all masks of a small release field',
      'tests count a set that never moved and release from one field',
      [PS + 'particlesetsoa.py', PS + 'baseparticleset.py', 'parcels/field.py'],
      [('counting', PS + 'particlesetsoa.py:density'), ('release fields', PS + 'particlesetsoa.py:monte_carlo_sample'), ('creation', PS + 'baseparticleset.py:from_line')],
      'exhaustive exploration of histories and release masks on the real code against a count by geometry', None),
]


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(V, 'mc', 'checks')) if f.startswith('c') and f.endswith('.py')}
    notes = {}
    npath = os.path.join(V, 'tools', 'notes.json')
    if os.path.exists(npath):
        notes = json.load(open(npath))
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n or w.split(':')[-1], 'where': w} for n, w in p['mech']],
                                            'hook_needed': None}}) + '\n')
    checks, na = [], list(NA)
    for p in PROPS:
        if p['id'] in built:
            checks.append({'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'], 'thorough_cmd': './run.sh %s thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'model checking: ' + p['tech'],
                           'level': p['level'], 'level_note': p['note'] or notes.get(p['id']) or
                           'Complete within the bounds listed in the evidence file and DESIGN.md; nothing is sampled. Trusts the oracle in mc/checks/%s.py.' % p['id'].lower()})
        else:
            na.append({'property': p['id'], 'reason': 'check not built yet'})
    json.dump({'version': 1, 'setup_cmd': './run.sh setup', 'checks': checks, 'not_applicable': na,
               'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks drive the public API and the file system layer from outside', 'source_commits': []}},
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


NA = []
if __name__ == '__main__':
    main()
