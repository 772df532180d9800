#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (only the properties that have a check)"""
import importlib.util
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
API, CORE, MODEL = 'cheval/api.py', 'cheval/core.py', 'cheval/model.py'
LDF, FILL = 'cheval/ldf/api.py', 'cheval/ldf/missing_data.py'
AST, EXPR, UTIL = 'cheval/parsing/ast_transformer.py', 'cheval/parsing/expressions.py', 'cheval/utils.py'
TESTS_CORE = 'The tests compare a handful of trees of up to three levels with stored numbers; '
TESTS_LDF = 'The tests use one pair of tables with fixed keys; '
MONITOR = 'runtime monitoring: real runs judged by an independent reference oracle'

PROPERTIES = [
 dict(id='C01', title='Probabilities and logsums follow the (nested) logit formula',
      statement='For every tree of choices and every finite utility, the probabilities, total logsums and logsums within nests returned by a stochastic run are those of the (nested) logit formula, with the logsum scale of each nest. Alternatives with a utility of minus infinity have no probability, and do not count in any logsum. This holds independently of precision (up to rounding), number of threads and the way in which utilities were given.',
      over=['inputs', 'configurations'], q='all trees (depth, widths, order of insertion, scales), utilities, numbers of units, thread counts, precisions, scaling flags',
      why=TESTS_CORE + 'the formula is quantified over all trees, scales and utilities, where mistakes hide in depth, order of insertion and availability.',
      files=[CORE, MODEL, API], mech=[('upward and downward passes over the tree', CORE), ('flattening of the tree into arrays', MODEL)],
      technique=MONITOR + ' (extended-precision recursion over the tree)'),
 dict(id='C02', title='Results are never silently invalid',
      statement='A run never returns NaN, probabilities outside of [0, 1], or rows that do not add up to one: utilities which have no valid probabilities are reported by an exception, whatever row, choice or thread they occur in. Rows without any available alternative are only accepted where the caller allowed them, and are marked as such in the results.',
      over=['inputs', 'schedules'], q='positions and kinds of invalid utilities (NaN, infinite, out of the exponent range, nothing available), trees, threads, modes of running, scaling',
      why='The tests have no invalid utilities in other than the first rows, and run with one thread; the guarantee is about any cell and any thread.',
      files=[CORE, MODEL], mech=[('validation of totals and utilities', CORE), ('reporting of invalid rows', MODEL)],
      technique='runtime monitoring: fault injection into utilities, with an online monitor of validity over all results'),
 dict(id='C03', title='Discrete results are available choices, in all result forms',
      statement='Every choice sampled by a discrete run is an elemental alternative with a positive probability for that unit, whatever the uniform draw is. All forms of results (positions, labels, categories, objects, squeezed or not, one or more draws) stand for the same choices, in the order of the decision units.',
      over=['inputs', 'configurations', 'schedules'], q='trees, patterns of availability, draws (including the limits of the interval), result forms, numbers of draws',
      why='Tests sample a few rows with moderate probabilities; a draw at a boundary, or an unavailable alternative, is hit with negligible probability.',
      files=[CORE, MODEL], mech=[('sampling by cumulative probabilities', CORE), ('conversion of positions to labels', MODEL)],
      technique=MONITOR + ', with injected extreme random draws'),
 dict(id='C04', title='Discrete choices follow the probabilities, independently',
      statement='The frequencies of sampled choices converge to the probabilities of the model, for every unit, position in the data, and number of the draw. Draws of different units, repeated draws of one unit, and draws of different seeds are independent of each other.',
      over=['inputs', 'schedules', 'configurations'], q='trees, utilities, numbers of units and draws, seeds, thread counts',
      why='A distribution is not settled by comparing samples with stored ones; tests check one seed and one row.',
      files=[CORE, MODEL], mech=[('seeded uniform draws per row', CORE), ('inverse transform sampling in nests', CORE)],
      technique='runtime monitoring: offline statistical checkers (Chernoff bounds, autocorrelation) over recorded samples'),
 dict(id='C05', title='Runs are reproducible given the seed',
      statement='The outcome of a run only depends on the contents of the model, its data and the seed: the same seed gives the same choices in each repetition, for any number of threads and any scheduling of these, in any process, and regardless of the state of global random number generators and of other models. A run does not affect the global random state seen by the caller, either.',
      over=['schedules', 'inputs', 'histories'], q='seeds, models, thread counts, orders of parallel iterations, processes, hash seeds, interleaved runs',
      why='Tests run once per seed in one process and with one thread; the quantifier is over schedules and environments.',
      files=[CORE, MODEL], mech=[('per-row random states derived from the seed', CORE)],
      technique='runtime monitoring: differential replays with perturbed schedules, orders, processes and global state'),
 dict(id='C06', title='Compiled code stays within the memory it was given',
      statement='No compiled function reads or writes outside of the arrays it was given, reads memory before it has been written, or changes its inputs, for any tree, number of units, memory layout and indexer. Nothing but the array of results is written to.',
      over=['inputs', 'configurations'], q='trees, sizes (including none and one), memory layouts (strided, reversed, read-only, transposed), indexers, threads',
      why='An access out of bounds usually returns plausible values; tests neither run with bounds checking nor with uncommon layouts.',
      files=[CORE, API, MODEL], mech=[('loops over nodes, rows and indexers', CORE)],
      technique='sanitizers: bounds-checked compilation and interpretation, patterned allocation, canaries around buffers'),
 dict(id='C07', title='Utilities are the sums of all expressions, by unit and choice',
      statement='The utility of each (unit, choice) is the sum of all expressions of the model, evaluated with the values that the data has for that unit and that choice. This holds for all kinds of symbols, types of data, orientations, operators and functions of the expression language, with the precedence of Python.',
      over=['programs', 'inputs'], q='expressions of the language, symbols of all kinds and orientations with data of all types, trees',
      why='Tests evaluate a few short expressions; the guarantee ranges over all programs of the expression language and over combinations of orientations and types.',
      files=[API, AST, EXPR, MODEL, UTIL], mech=[('parsing and substitution', AST), ('broadcasting of symbols', API), ('evaluation', MODEL)],
      technique='runtime monitoring: generated programs, judged by a separate evaluator that never parses text'),
 dict(id='C08', title='Restrictions and per-choice values reach exactly the named choices',
      statement='An expression that is restricted to a choice only affects that choice, and the values of a literal listing values per choice go exactly to the choices named by its keys. Keys naming a nest, or all nodes below a nest, cover just these, at every level and for every order in which choices were added; unknown names are rejected.',
      over=['programs', 'inputs', 'configurations'], q='trees with repeated and prefix-sharing names, restrictions and literals with all kinds of keys',
      why='Tests address choices of one tree with two levels; errors appear with interleaved insertion, repeated names and deep nests.',
      files=[API, AST, MODEL], mech=[('dict literals', AST), ('addressing of choices', MODEL)],
      technique=MONITOR + ' (columns predicted from the tree)'),
 dict(id='C09', title='Data of symbols is aligned by labels, filled, or rejected',
      statement='Data that is assigned to a symbol takes effect for the units and choices whose labels it has, in whatever order, type, orientation and memory layout it was given, with the fill value (where this is allowed) for labels that are missing. Data that does not fit is rejected with an error, and leaves the previous data in use.',
      over=['inputs', 'fault_sequences'], q='kinds of symbols, orders and extents of labels, types, layouts, kinds of flaws',
      why='The tests assign data that is complete and in order; silent misalignment is only visible with reordered or partial labels.',
      files=[API, UTIL], mech=[('alignment in assign methods of symbols', API)],
      technique=MONITOR + ', with injected flaws in data'),
 dict(id='C10', title='Running and failing do not change a model',
      statement='Whatever sequence of changes, runs and failed operations it went through, a model gives the results that its current contents stand for. Runs leave the model as it was, failed operations have no effect, changes of units, precision, data or expressions take full effect, and clearing the scope removes only the symbols.',
      over=['histories', 'fault_sequences'], q='histories of operations, runs in all modes, and failures',
      why='Tests run each model once or twice; stale caches and half-done changes only show after particular sequences.',
      files=[MODEL, API, EXPR], mech=[('cached partial utilities and indices', MODEL), ('clearing of scope', MODEL)],
      technique='runtime monitoring: random histories against a shadow model, compared after each operation'),
 dict(id='C11', title='Copies and subsets are equivalent to, and independent of, their origin',
      statement='A copy of a model, and a subset of it for some of the units, gives for its units the results of the original. Later operations on any of them (data, expressions, units, partial utilities, runs) do not affect the others.',
      over=['histories', 'inputs'], q='flags of copying, selections of units, interleaved operations on all members',
      why='Tests copy once and compare directly; shared state only shows after later operations on either side.',
      files=[MODEL, API], mech=[('copy and copy_subset of models and symbols', MODEL)],
      technique='runtime monitoring: populations of related models against independent shadow models'),
 dict(id='C12', title='Staged evaluation equals evaluation at once',
      statement='Evaluating groups of expressions in advance, in any order, with or without dropping the group and its symbols, interleaved with copies, subsets and partial utilities, gives the same results as evaluating everything in a single run. Running a group uses the expressions of that group and the partial utilities, and nothing else.',
      over=['histories', 'configurations'], q='groupings, orders of stages, cleaning flags, copies and subsets in between',
      why='The tests have a single grouped model and one order of stages.',
      files=[MODEL, EXPR, API], mech=[('pre-evaluation and partial utilities', MODEL), ('groups of expressions', EXPR)],
      technique='runtime monitoring: differential (staged vs. at once) plus shadow model'),
 dict(id='C13', title='Unsupported or inconsistent expressions are rejected without a trace',
      statement='Expressions outside of the supported language, or using a symbol in contradiction to its other uses or its declaration, are refused by an exception rather than evaluated to something else. A refused expression leaves the model as it was.',
      over=['programs', 'histories'], q='templates of unsupported syntax at all depths of expressions, in models in any state',
      why='Tests try two unsupported forms at top level, and do not look at the state of the model afterwards.',
      files=[AST, EXPR, API], mech=[('whitelist of syntax', AST), ('consistency of symbols', EXPR)],
      technique='runtime monitoring: generated faulty programs, with a monitor of the state of the model after rejection'),
 dict(id='C14', title='Missing parts are reported exactly if they are needed',
      statement='Validation, runs and pre-evaluation raise the dedicated not-ready error exactly if something they need is missing: choices, decision units, declarations or data of the symbols in use. This is so at each step of building a model, in any order, and for any part taken away later.',
      over=['histories', 'configurations'], q='orders of construction, subsets of missing parts, entry points, groups',
      why='Tests do not cover the combinations of missing parts; a wrong answer either blocks valid models or lets runs fail later.',
      files=[MODEL, API], mech=[('validation of the model', MODEL)],
      technique='runtime monitoring: models under construction, with a reference of their readiness'),
 dict(id='C15', title='Choices, their order and the labels of all results reflect the tree',
      statement='After any sequence of adding and replacing choices at any level, the choices, their order, their number of levels and the labels of all results are those of the tree as built, and each value is found under the label of its choice. Rejected additions leave the tree as it was.',
      over=['histories', 'inputs'], q='orders of additions and replacements, trees, names (repeated, prefixes of others, of other types)',
      why='Tests build trees in one order, without replacement.',
      files=[MODEL, API], mech=[('tree of nodes and cached indices', MODEL)],
      technique='runtime monitoring: histories against a reference tree; values checked through their labels'),
 dict(id='C16', title='Data of the caller is never changed',
      statement='No operation changes the tables, series, arrays and dictionaries which the caller passed to it: neither assigning, running, pre-evaluating and copying models, nor linking, looking up, aggregating, slicing and evaluating tables. Results do not share memory with inputs or internal state, so changing a result affects neither later results nor the inputs.',
      over=['histories', 'inputs'], q='operations on models and tables, types and layouts of data, changes made to results',
      why='The tests never look at inputs after the fact.',
      files=[API, MODEL, LDF, UTIL, CORE], mech=[('conversion of data', UTIL), ('copies of cached utilities', MODEL)],
      technique='runtime monitoring: exact snapshots of inputs around every operation; results overwritten by the harness'),
 dict(id='C17', title='The debug trace shows one unit after each of the expressions',
      statement='If a unit is traced, the trace lists all evaluated expressions in their order of evaluation, with the cumulative utilities of that unit for each choice. Tracing does not affect the results. A logger given to a run is told each evaluated expression, in that order.',
      over=['programs', 'inputs'], q='models, expressions with restrictions and values per choice, groups, units',
      why='One test has a trace for one model, and only looks at its shape.',
      files=[MODEL], mech=[('recording after each expression', MODEL)],
      technique=MONITOR + ' of cumulative utilities'),
 dict(id='C18', title='Expression collections keep what was added, in order and independently',
      statement='A collection of expressions contains exactly the expressions that were added to it (in the order in which they were added, for each group), with the symbols they use, whatever was added, refused, dropped or cleared before. Copies and sums of collections contain the expressions of their operands, and changing one of them does not affect the others.',
      over=['histories'], q='appending with and without groups, refused expressions, dropped groups, clearing, copies, sums',
      why='Tests append a few expressions and look at them once.',
      files=[EXPR, API, MODEL], mech=[('groups of expressions and their symbols', API)],
      technique='runtime monitoring: histories of several collections against a reference, compared after each operation'),
 dict(id='C19', title='Data which is not needed any more is released, and runs leave nothing behind',
      statement='Once the data of symbols is gone from a model (a run or a call that clears the scope, new data or new decision units, a new declaration, or pre-evaluation with a clean-up of the scope), the package has no reference to it any more, whatever was done with it before; the same is true of tables that a frame is not linked to any more. Repeating an operation (runs, refused runs and expressions, copies and subsets, lookups, aggregations, slices, new links) does not add to the memory or the objects in use, and memory that compiled code has allocated is returned to its allocator, also by runs which fail.',
      over=['histories', 'inputs'], q='models, kinds and layouts of data, operations before the release, ways of releasing; repeated operations on models and linked tables',
      why='Tests look at values only: what is left behind shows in programs that run for a long time or with large data (the documentation has clear_scope and cleanup_scope for this).',
      files=[MODEL, API, CORE, LDF], mech=[('release of the scope', MODEL), ('results of compiled code', CORE), ('links of a frame', LDF)],
      technique='runtime monitoring: weak references to everything assigned, memory in use over windows of repetitions (tracemalloc, garbage collector), statistics of the allocator of compiled code'),
 dict(id='L01', title='Lookups through links give the values of the linked rows',
      statement='Looking up an attribute through a link, or a chain of links, gives for each row the value in the row that it is linked to by its keys, with the type of the attribute, and aligned with the rows of the frame. Rows without a counterpart get the fill value. This holds for keys in columns, indexes or some levels of these, of all types, and for columns that were added later.',
      over=['inputs', 'configurations', 'histories'], q='relations (keys, types, missing keys, places of keys), chains, attributes, styles of access',
      why=TESTS_LDF + 'wrong rows usually still look plausible.',
      files=[LDF, FILL, UTIL], mech=[('indexers of links', LDF), ('resolution of chains of links', LDF)],
      technique=MONITOR + ' (dictionary-based join)'),
 dict(id='L02', title='Aggregations over links are those of the linked rows',
      statement='Aggregating a column or an expression over a link to many rows gives, for each row, the aggregate over the current values of exactly the rows that are linked to it, for all supported aggregations; rows without any linked rows get the fill value. This also holds at the end of a chain of links, and inside of expressions.',
      over=['inputs', 'programs', 'configurations'], q='relations, aggregations, aggregated expressions, chains, types, missing values and keys, changes of aggregated columns',
      why=TESTS_LDF + 'one aggregation is tested per kind, with all keys present.',
      files=[LDF, UTIL], mech=[('grouping by keys', LDF)],
      technique=MONITOR + ' (group-by in plain Python)'),
 dict(id='L03', title='Rows keep their links when they are sliced, filtered or reordered',
      statement='For a frame obtained by slicing, filtering or reordering the rows of a linked frame, also repeatedly or in place, lookups and aggregations give for each row what they gave for that row in the original frame. The documented slicing operations keep all links (groups of rows with repeated labels: all links whose keys are still in the frame); other operations may drop links, but never associate a row with another row\'s values.',
      over=['histories', 'inputs'], q='sequences of row operations, eager and lazy links, kinds of indexes, relations',
      why='Tests slice once per operation, with links that were computed in advance.',
      files=[LDF], mech=[('subsetting of indexers in overridden methods', LDF), ('transfer of links', LDF)],
      technique='runtime monitoring: random histories of row operations, each row identified by a column of its own'),
 dict(id='L04', title='Evaluated expressions equal row-wise evaluation',
      statement='Evaluating an expression on a frame gives for each row the value of the expression for the columns, linked attributes and aggregations of that row, in the supported language with its precedence; local values replace missing names, and results can go to an existing array. Unsupported expressions and unknown names are rejected.',
      over=['programs', 'inputs'], q='expressions, column types, links, local values, frames of any index',
      why='Tests evaluate a few expressions.',
      files=[LDF, AST, EXPR, UTIL], mech=[('evaluate', LDF)],
      technique='runtime monitoring: generated programs, judged by a separate evaluator'),
 dict(id='L05', title='Fill values: column before instance before class, and restorable',
      statement='A row without a counterpart gets the fill value set for the column, else the one set for the target frame and the type of the column, else the one of the class at the time when the frame was made. Temporary defaults end with their block even if it fails, resetting restores the built-in defaults, and the settings of one frame do not affect any other frame.',
      over=['histories', 'inputs'], q='sequences of settings at the three levels, nested temporary settings with and without exceptions, types',
      why='Tests do not set fill values except for one default.',
      files=[FILL, LDF], mech=[('fill managers', FILL)],
      technique='runtime monitoring: histories of settings against a reference'),
 dict(id='L06', title='Links are classified by their keys, and invalid ones are refused',
      statement='A link requires aggregation exactly if some key occurs repeatedly among the rows of the target, which is what creating the link, its summary and access through it tell consistently. Links with repeated keys on both sides, of unequal numbers of keys, or with keys that do not exist are refused, and leave existing links as they were.',
      over=['inputs', 'fault_sequences'], q='relations of all multiplicities, flawed specifications, existing links',
      why='Tests have one link of each kind.',
      files=[LDF], mech=[('determination of aggregation', LDF)],
      technique=MONITOR + ', with injected flaws in specifications'),
 dict(id='L07', title='Pivot tables of linked attributes equal those of plain columns',
      statement='Pivoting a frame by expressions, linked attributes or aggregations gives the table that results from a plain frame which has the values of these as columns. The frame is left as it was.',
      over=['inputs', 'programs'], q='indexes, columns and values of pivots (one or several; columns or linked attributes or expressions), aggregation functions',
      why='Tests pivot one table.',
      files=[LDF], mech=[('resolution of columns', LDF)],
      technique='runtime monitoring: differential with plain tables built from a reference of links'),
 dict(id='L08', title='When links are computed does not matter',
      statement='Links that are computed when created, on first use, on request, or again on request give the same values. Requesting links to be recomputed takes changed keys on both sides into account, and links which have been computed keep their relation until then. Copies and slices have the relations of their rows at the time they were made, whatever happens to the original.',
      over=['histories', 'configurations'], q='times of computation, changes of keys and columns in between, chains, aggregations, slices',
      why='Tests compute links at once.',
      files=[LDF], mech=[('lazy indexers', LDF)],
      technique='runtime monitoring: differential histories of computation, with a reference of relations'),
 dict(id='L09', title='Linked attributes in utilities are those of each unit and choice',
      statement='Linked attributes and aggregations used in the expressions of a choice model take the values for each decision unit, or for each choice, that lookups in the table give for it, whatever the order of the rows of the table. This includes subsets of the model, and tables that were sliced before they were assigned.',
      over=['programs', 'inputs', 'histories'], q='tables for units and choices, relations, chains, aggregations, expressions, copies and subsets',
      why='The tests have one model with a linked table.',
      files=[API, LDF, MODEL], mech=[('expansion of linked symbols', API)],
      technique='runtime monitoring: utilities recovered from runs, against a reference of links'),
 dict(id='L10', title='A linked table is otherwise a plain DataFrame',
      statement='Operations of pandas that have nothing to do with links give on a linked table what they give on a plain DataFrame with the same contents: the same values, types, labels and effects on the table itself and on other tables, and they fail where it fails. Results which still have links associate rows with the values they had in the original.',
      over=['histories', 'inputs'], q='operations of pandas (selecting, assigning, sorting, grouping, reshaping, combining, in-place changes), columns, indexes, links',
      why='Tests only slice linked tables.',
      files=[LDF], mech=[('overridden methods and constructors', LDF)],
      technique='runtime monitoring: the same operations on a linked and a plain table, all tables compared after each operation'),
]


def main():
    props, checks = [], []
    for p in PROPERTIES:
        path = f'{VERIF}/rtm/checks/{p["id"].lower()}.py'
        if not os.path.exists(path):
            continue
        assert len(p['title']) <= 80, p['id']
        assert len(re.findall(r'[.:] |\.$', p['statement'].replace(': ', ' '))) <= 3, (p['id'], p['statement'])
        text = open(path).read()
        scope = {}
        exec(re.search(r'^ASSUMPTIONS = \[.*?\]$', text, re.S | re.M).group(0).replace("{LIMIT:g}", '30').replace('{Z_LIMIT:g}', '9'), scope)
        props.append(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['q']),
                          why_tests_cant=p['why'],
                          anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                       observe_at=['public API: results, exceptions, and inputs after the fact'], hook_needed=None)))
        checks.append(dict(property=p['id'], quick_cmd=f'./check {p["id"]} quick', thorough_cmd=f'./check {p["id"]} thorough',
                           evidence_file=f'evidence/{p["id"]}.json', technique=p['technique'], level='exploration',
                           level_note='Randomised workloads from a seed; everything observed is judged, nothing beyond it is. Assumes: '
                                      + '; '.join(scope['ASSUMPTIONS']) + '.'))
    with open(f'{VERIF}/properties.jsonl', 'w') as f:
        for p in props:
            f.write(json.dumps(p) + '\n')
    with open(f'{VERIF}/MANIFEST.json', 'w') as f:
        json.dump(dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=[],
                       notes='No hooks in /repo: monitors observe the public API, and replace functions of the package at run time only. '
                             'Exit codes of a check besides 0 and 1: 3 error of the check, 4 time ran out, 5 the monitors observed too little.'),
                  f, indent=1)
        f.write('\n')
    import jsonschema
    jsonschema.validate(json.load(open(f'{VERIF}/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in props:
        jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print(len(props), 'properties')


main()
