"""fills the tables of DESIGN.md from the properties, the notes below, the evidence and seeded/"""
import glob
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id -> (what is compared with what, bounds: what is enumerated, why tests cannot)
NOTES = {
    'K01': ('each output of Converter for each of the eight starting quantities as a term in value and mass, against the relativistic relation',
            'starting quantity x output x unit combinations enumerated; value, mass symbolic'),
    'K02': ('returned numbers against the unit conversion of the K01 relations, every label of the printed text against the unit of the number in it, a second call against the first; '
            'main(argv) against the class for the same request', 'unit combinations enumerated; first and second call'),
    'S01': ('coordinate arrays of the Species against the file columns (SDDS columns/parameters are opaque arrays; HDF5 files are played by a stand-in with steps, attributes and datasets that the analysed code opens)', 'files with and without charge, p parameter, particle count; every order and number of steps listed, charge under either name, zero, absent; steps absent, 0, symbolic'),
    'S02': ('write effects (create_column, text lines, savetxt, DataFrame rows) against the format definition; composition write_elegant then read_elegant against identity', 'formats enumerated; arrays symbolic; the file text is rebuilt from what is written (lines, separators, digits kept) and read as the format says'),
    'S03': ('state of Switchyard.species before and after, effects, result and exceptions', 'codes x names x names already taken; two reads'),
    'B01': ('attributes and print_Twiss text after construction and after sequences of setters; terms of the six columns of distribute_Gaussian and their independence', 'setter sequences up to length two (pairs of every attribute), constructor forms'),
    'B02': ('Hamiltonian of the generated normalised coordinates as a term in the random draws against the level prescribed; uniformity of the angle; partners of a quiet start; box of positions and the level the largest y is searched for; parameters after generating, and the distribution generated a second time; potential against the complex-analytic definition', 'distribution x quiet; one generic particle of the loop'),
    'B04': ('the heap at the raise against the heap before; acceptance and read-back of admissible values; guard terms against the admissible set', 'each setter; values below, at and above the bound'),
    'X01': ('argument and limits of the integral as terms; closed forms by differentiation with respect to the upper limit; order of the values over turns and through the pool', '1, 2 and 3 coefficients for the closed forms and the sum; pool or none'),
    'X02': ('sine, cosine and range of the returned angle over all quadrants; index window and fold of the tune', 'direction; window limits absent, 0, symbolic'),
    'L04': ('attributes after generate_sequence as terms in the current parameters; text of create_madx', 'every parameter changed after a previous call'),
    'C01': ('values of the module constants against CODATA and the exact conversion chain', 'all constants'),
    'T01': ('loops as recurrences evaluated on random arrays of 6 x 5, against mean, variance, …; in-place effect; rotation invariants of the solver for each pair and several sweeps', 'pairs (p,q) enumerated; array shapes fixed, contents arbitrary'),
    'T02': ('what is searched/interpolated, on which grid, at which numbers, with which arguments', 'method x generator x forms of args'),
    'R01': ('linear map per particle and plane, hence covariance; emittance as determinant; beam0 relations', 'planes enumerated; alpha, beta, emit symbolic, both signs'),
    'R02': ('array, count, file state after each operation, also after a rejected one; text round trip by the same layout', 'dimensions 0..3, rows around 6, indices around 0..5'),
    'R03': ('acceptance condition of the draws, independence, order of centring, decorrelation and normalisation', 'types enumerated; one generic particle'),
    'D01': ('sequence of writes against the SDDS protocol grammar: header tokens, body tokens or pack formats and their values', 'modes x types x attributes x numbers of parameters/columns/rows up to 3; second save'),
    'D02': ('typestate of the target file: nothing fallible between the truncating open and close, closed on every exit, nothing written before a refusal', 'modes, lengths, types'),
    'D03': ('each value returned against the byte range or token of the layout (byte ranges are terms in the row count)', 'layouts of up to 3 parameters/columns, up to 3 pages, binary/ascii, row counts or none, buffered or not'),
    'D04': ('pages returned against the pages asked for; second read', 'page selections of up to 3 of 4 pages, any iterable, histories of two reads'),
    'D05': ('accessor results against the header text; refusals; position of the body', 'header layouts (order, spacing, comments, quotes, spread entries)'),
    'L01': ('lookup in every spelling after every way of setting', 'ways of setting x spellings x ways of reading'),
    'L02': ('sequence yielded, length, edge, edits, file restored', 'shapes of lines up to three levels; lengths and parameters symbolic'),
    'L03': ('matrix entries as terms in length and strength against the transfer matrix; product order', 'element kinds x sign of strength; lines of up to three elements; named parameters'),
    'L05': ('elements and parameters against the cards of the file, numerals standing for any number', 'card layouts, neighbours, styles'),
    'L06': ('elements against the definition, numerals standing for any number', 'definition layouts: nested, reversed, repeated, continued lines, order of definitions, case'),
    'H01': ('each acquire site (open, h5py.File, Pool, functions returning one) with the releases on all exits, an exception possible at every call', 'none'),
    'H02': ('effect summaries of every function with the frozen table sa/api.json of what it may change', 'public functions and methods of the reference tree'),
    'H03': ('effect summaries: default, class and module roots; containers handed on to objects that change them; memo decorators; calls that change the process', 'none'),
    'H04': ('names by scope, members by class, calls by signature, formats by places', 'none; objects of unknown class are not judged'),
    'H05': ('resolved calls with the list of sinks', 'none'),
    'P01': ('artists on the axes at the end (calls recorded by a stand-in for matplotlib): boxes, lines, labels, limits as terms in positions and lengths', 'element kinds x lengths x positions; all one and two letter symbols; up to three quantities'),
    'P02': ('images and curves on the axes: data of the histogram, extent, centres and counts of the bins as terms in the particles', 'two pages, with and without parameters, charge, projections'),
    'P03': ('same; levels as terms in the density, mask of the points against the outside of the contours', 'numbers of levels and divisions enumerated, scales and forms of the arguments'),
    'W01': ('the text written, read back as definitions and line by an independent reader of the check, with values as terms in parameters and momentum', 'element kinds; low and high momentum'),
}
WHY = {}


def props():
    out = []
    ids = []
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)
        ids.append(p['id'])
        n = NOTES.get(p['id'])
        ev = {}
        f = os.path.join(HERE, 'evidence', p['id'] + '.json')
        if os.path.exists(f):
            ev = json.load(open(f))
        out.append('### %s %s\n' % (p['id'], p['title']))
        if n:
            out.append('Compared: %s.\n' % n[0])
            out.append('Bounds: %s.\n' % n[1])
        out.append('Why not tests: %s.\n' % p.get('why_tests_cant', WHY.get(p['id'], '')).rstrip('.'))
        c = ev.get('coverage', {})
        if c:
            out.append('Last run (%s): %d obligations by %d rules, %.0f s.\n' % (ev.get('tier'), c['obligations'], len(c['rules']) if not isinstance(c['rules'], int) else c['rules'], ev.get('wall_s', 0)))
    return '\n'.join(out)


def seeded():
    out = ['| planted bug | breaks, when | caught by |', '|---|---|---|']
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        out.append('| %s | %s; needs %s | %s |' % (os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs'], m['property']))
    return '\n'.join(out)


p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
for k, f in (('props', props), ('seeded', seeded)):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (k, k), lambda m: m.group(1) + f() + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
