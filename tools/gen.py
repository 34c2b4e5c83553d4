"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after an edit)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'analysis'))
P = []
def prop(id, title, statement, text, why, files, mech, tech, note, over=('inputs',), na=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, tech=tech, note=note, over=list(over), na=na))
AI = 'abstract interpretation of compiler MIR'
TRUST = ('Trusts: the models of std/adapton calls (force, cell, put, memo!, Vec, Option, iterators), the MIR dump of nightly rustc, element types with lawful Clone/Eq, engine evaluated from scratch. '
         'An obligation the analysis cannot decide is reported as undecided in the evidence and raises no alarm; on the unchanged tree all are decided unless the note says otherwise. ')

prop('C01', 'Archive stack behaves as one stack of elements',
     'An archive stack holds one sequence of elements: archived sections, oldest first, then the active section. Pushing, popping, peeking, extending, iterating and archiving act on that sequence as on an ordinary stack, wherever the archive points lie; archiving never changes it, and opening archives returns the sections newest first without losing, duplicating or reordering elements.',
     'every stack content and every placement of archive points, named or not (archived sections non-empty, which is itself shown to be preserved)',
     'the tests push a handful of numbers around one or two archive points', ['src/archive_stack.rs', 'src/stack.rs'],
     [('section vector plus persistent list of sections', 'src/archive_stack.rs AStack')],
     AI + ': sequence domain, per-operation pre/postconditions on the content word',
     TRUST + 'Inductive: each public operation is shown from an arbitrary state, so all histories are covered.', over=('inputs', 'histories'))
prop('C02', 'Persistent list operations are pure and last-in first-out',
     'Pushing on a persistent list yields a list whose first element and name are those given and whose rest is the old list; peeking, naming, pulling and iterating report exactly those parts. No operation changes a list that already exists.',
     'every list, element and optional name', 'tests use lists of a few integers and one iteration order',
     ['src/stack.rs'], [('cons cells behind articulations', 'src/stack.rs push_onto')],
     AI + ': algebraic laws of the list operations', TRUST, over=('inputs', 'histories'))
prop('C03', 'A tree node holds exactly the parts it was built from',
     'Building a tree node always succeeds and the node reports the level, name, data and left and right branches it was given. A named node is stored in a cell of that very name and an unnamed one is anonymous; cloning a tree gives the same tree.',
     'every level, optional name, data value and pair of optional branches', 'tests build a few fixed trees',
     ['src/level_tree.rs'], [('constructor and accessors', 'src/level_tree.rs Tree')],
     AI + ': constructor/accessor laws and cell-name events', TRUST)
prop('C04', 'Bottom-up tree fold visits every node once with its own parts',
     'The bottom-up fold of a tree calls the given function once per node, passing the results of its existing branches on their own sides (none for a missing branch) with that node\'s data, level and name. The result is the same whether nodes are named or not, and the variant without levels and names is the same fold.',
     'every tree shape, named or unnamed nodes, every function', 'tests fold two or three fixed trees with commutative functions',
     ['src/level_tree.rs'], [('recursion with memo! per branch', 'src/level_tree.rs fold_up_meta')],
     AI + ': structural induction, recursive calls replaced by the induction hypothesis', TRUST)
prop('C05', 'Left-to-right tree fold visits nodes in order exactly once',
     'The left-to-right fold threads the accumulator through the left branch, the node, then the right branch, so every node is folded exactly once and in sequence order, with its own level and name; a leaf gets the name of the branch point before it. Naming the nodes does not change the result.',
     'every tree shape, named or unnamed nodes, every function', 'tests use a fixed small tree',
     ['src/level_tree.rs'], [('recursion with memo! per branch', 'src/level_tree.rs fold_lr_meta')],
     AI + ': structural induction, recursive calls replaced by the induction hypothesis', TRUST)
prop('C06', 'Tree map keeps shape, levels and names',
     'Mapping a tree returns a tree of the same shape with the same levels and names, in which the data of every node is what the function makes of the old data, the level, the name and the mapped branches.',
     'every tree, named or unnamed, every function', 'tests map one small tree',
     ['src/level_tree.rs'], [('recursion with memo! per branch', 'src/level_tree.rs map')],
     AI + ': structural induction', TRUST)
prop('C07', 'Moving a tree cursor loses nothing and is reversible',
     'Moving a tree cursor up or down in any permitted way keeps the whole tree (every node with its level, name and data other than recomputed summaries) and reports truthfully whether and where it moved. Going down and back up restores the cursor; going up after an edit rebuilds the parent from its new branches and never otherwise; the observers report the focused node.',
     'every cursor reachable over trees whose levels follow the convention', 'the tests walk a fixed tree along a few paths',
     ['src/tree_cursor.rs'], [('stacks of ancestors with dirty flags', 'src/tree_cursor.rs Cursor')],
     AI + ': zipper content word and inductive cursor invariants', TRUST + 'Scoped to trees with consistent levels, which the library documents as the intended use.', over=('inputs', 'histories'))
prop('C08', 'Splitting and joining cursors preserves the sequence of nodes',
     'Splitting a cursor yields a left part, the focused tree and a right part that together hold exactly the nodes of the original in order. Joining two cursors around a new node yields a cursor focused on that node whose in-order content is the left content, the new node and the right content, and it never fails.',
     'every pair of cursors over trees with consistent levels, every level and name', 'tests join two or three fixed trees',
     ['src/tree_cursor.rs'], [('level driven interleaving of the two spines', 'src/tree_cursor.rs join')],
     AI + ': loop invariants on the zipper content word', TRUST + 'Loop states are generalised; the content measure must be invariant.', over=('inputs', 'histories'))
prop('C09', 'Level checker accepts exactly the documented convention',
     'The level checker accepts a tree exactly when at every node the left branch has a lower level and the right branch a level that is not higher.',
     'every tree', 'the tests only check trees that are accepted', ['src/level_tree.rs'], [('recursive check', 'src/level_tree.rs good_levels')],
     AI + ': decision table over branch shapes and level orders', TRUST)
exec(open(os.path.join(V, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more_props.py')) else None

def main():
    import check, spec
    check.load_props()
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in spec.OBLIGATIONS:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 analysis/check.py %s quick' % p['id'], 'thorough_cmd': 'python3 analysis/check.py %s thorough' % p['id'],
                           'technique': p['tech'], 'level': 'other', 'level_note': p['note'].strip()})
        else: na.append({'property': p['id'], 'reason': p['na'] or 'no check built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 analysis/dump.py build', 'checks': checks, 'not_applicable': na,
         'notes': 'Every check dumps the type-checked MIR of the current tree of /repo (library and eval crate) with a rustc_private driver and decides the property by abstract interpretation or by a rule over that MIR; nothing of /repo is executed. See DESIGN.md.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable', [n['property'] for n in na])
main()
