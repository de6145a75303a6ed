"""Which design-level models and schedule models belong to which property.

models(prop, thorough)    what TLC checks exhaustively before the code is looked at
schedules(prop, thorough) models whose every transition is turned into a history
                          that the harness replays into the real library
tour(cfg, out, seed)      the histories: walks that together take every transition
"""
import random, re
from collections import deque

ASSUMPTIONS = [
    'TLC, the JVM, rustc and the operating system work correctly',
    'the observations of the harness (public API calls only) report what a user would see',
    'bounded graphs, histories and schedules; see DESIGN.md for the bounds of each model and driver',
]

T, F = 'TRUE', 'FALSE'
NONE, A, AB = '{}', '{"a"}', '{"a", "b"}'

TEMPLATES = dict(
    GraphMapImpl=('Spec', dict(K=2, NLabs=A, ELabs=A, Dir=T, Emit=F, Handles=T),
                  'Denotes Counts Adjacency Mirrored RefineIsNoop Sound', 'StepProps', 'View'),
    CsrImpl=('Spec', dict(N=3, Dir=T, NLids=NONE, ELids=NONE, Gaps=F),
             'VectorsAreTheEncoding DecodesToTheGraph QueriesAgree CountsAgree EmitsOnlyEdgesInOrder EmitsAll '
             'StripsOnlyLabels', '', ''),
    Traversal=('TSpec', dict(N=3, Kind='"bfs"', Parts=F),
               'NoRepetition EndsComplete StartsWhereAsked DistancesGrow Triples WholeAgrees', 'Admissible StaysAtEnd', ''),
    UnionFind=('USpec', dict(N=4, Emit=F), 'SamePartition', 'QueriesChangeNothing', 'View'),
    Subgraphs=('SSpec', dict(N=3, Dir=T, NLabs=NONE, ELabs=NONE), 'Partition EachElementOnce ClassesAgree', '', ''),
    SetOps=('SSpec', dict(K=2, Op='"union"', DirA=F, DirB=F, NLabs=NONE, ELabs=NONE),
            'ResultIsRight EqualityIsSameness UnionLaws MinusLaws', '', ''),
    Reorder=('RSpec', dict(K=3, Dir=T, NLids=NONE, ELids=NONE, DoN=T, DoNL=F, DoEL=F),
             'RecordsDenoteRenamed IsIsomorphism Ordered Untouched Invertible FreqsAgree', '', ''),
    Gen=('GSpec', dict(Kind='"gnm"', Dir=F, N=4, M=3, NLabs='<-L2', ELabs='<-L2'),
         'Admitted RefusedRightly PairsAreAllPairs', '', ''),
    LabelMap=('LSpec', dict(Items='{"a", "b", "c"}', Emit=F), 'Dense1 EqualHashEqual', 'Steps', 'View'),
    LdbcMC=('LSpec', dict(NodeRows1='<-N1', RelRows='<-R1', Dir=T), 'TypedGraph IdsDense', '', ''),
    Files=('FSpec', dict(Mode='"dump"', MaxN=2, BufSize=2, Block=3, Faulty=F, Stale='"any"'),
           'OkMeansAllThere ErrorsAreReal NeverDamaged PrefixRefused', 'Ends', ''),
    CsvMC=('CSpec', dict(Kind='"round"', Alphabet='{"a", ",", "\\"", "\\n", " "}', MaxLab=3, NRows=1, MaxText=0, Dir=T),
           'RoundTrip LabelsComeBack RowByRow NothingElse SameRows', '', ''),
    TypedMap=('MSpec', dict(MaxLen=6, MaxWidth=4, Block=5), 'ExactBytes ExactElements WholeOnes Slices', 'Ends', ''),
)


def config(module, over, emit=False):
    spec, consts, invs, props, view = TEMPLATES[module]
    c = dict(consts)
    c.update(over)
    out = ['SPECIFICATION ' + spec, 'CONSTANTS']
    for k, v in c.items():
        v = str(v)
        out.append('%s <- %s' % (k, v[2:]) if v.startswith('<-') else '%s = %s' % (k, v))
    if emit:
        out += ['VIEW Shape', 'ACTION_CONSTRAINT EmitT']
    else:
        out.append('INVARIANTS ' + invs)
        if props:
            out.append('PROPERTIES ' + props)
        if view:
            out.append('VIEW ' + view)
    out.append('CHECK_DEADLOCK FALSE')
    return '\n'.join(out) + '\n'


def m(module, heap='3g', **over):
    name = module + ''.join('-%s' % re.sub(r'[^A-Za-z0-9]', '', str(v)) for v in over.values())
    return dict(name=name, module=module, cfg=config(module, over), heap=heap)


def s(module, head, **over):
    over = dict(over, Emit=T)
    name = 'tour-' + module + ''.join('-%s' % re.sub(r'[^A-Za-z0-9]', '', str(v)) for v in over.values())
    return dict(name=name, module=module, cfg=config(module, over, True), heap='3g', head=head)


def models(prop, thorough):
    t = thorough
    big = '12g'
    r = []
    if prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C25', 'C26'):
        r += [m('GraphMapImpl', Dir=d) for d in (T, F)]
        r += [m('GraphMapImpl', K=3, NLabs=NONE, ELabs=NONE, Dir=F)]
        if t:
            r += [m('GraphMapImpl', K=3, NLabs=NONE, ELabs=NONE, Dir=T),
                  m('GraphMapImpl', K=3, NLabs=A, ELabs=NONE, Dir=F),
                  m('GraphMapImpl', K=3, NLabs=NONE, ELabs=A, Dir=F, Handles=F),
                  m('GraphMapImpl', K=2, NLabs=AB, ELabs=A, Dir=T, Handles=F),
                  m('GraphMapImpl', K=2, NLabs=AB, ELabs=AB, Dir=F, heap=big),
                  m('GraphMapImpl', K=2, NLabs=A, ELabs=AB, Dir=T, Handles=F, heap=big),
                  m('GraphMapImpl', K=4, NLabs=NONE, ELabs=NONE, Dir=F, heap=big)]
    if prop in ('C04', 'C10', 'C11', 'C12', 'C26'):
        r += [m('CsrImpl'), m('CsrImpl', N=3, Dir=F)]
        if prop in ('C10', 'C11', 'C12') or t:
            r += [m('CsrImpl', N=2, NLids='{0, 1}', ELids='{0}', Dir=F)]
        if t:
            r += [m('CsrImpl', N=3, Dir=F, NLids='{0}', ELids='{0}', heap=big),
                  m('CsrImpl', N=4, Dir=F, Gaps=T), m('CsrImpl', N=2, NLids='{0, 1}', ELids='{0, 1}', Gaps=T)]
    if prop == 'C06':
        r += [m('LabelMap')]
        if t:
            r += [m('LabelMap', Items='{"a", "b", "c", "d"}', heap=big)]
    if prop in ('C08', 'C09', 'C21', 'C22'):
        op = dict(C08=['union', 'minus', 'clone'], C09=['clone'], C21=['union'], C22=['minus'])[prop]
        for o in op:
            q = '"%s"' % o
            mixed = [(d, e) for d in (T, F) for e in (T, F) if d == e or (o != 'clone' and prop != 'C08')]
            for d, e in mixed:
                r += [m('SetOps', Op=q, DirA=d, DirB=e)]
            if t or prop != 'C08':
                r += [m('SetOps', Op=q, DirA=F, DirB=F, NLabs=A, ELabs=A, K=2 if t else 1)]
            if t or prop != 'C08':
                r += [m('SetOps', Op=q, DirA=F, DirB=F, NLabs=NONE, ELabs=A)]
            if t:
                r += [m('SetOps', Op=q, DirA=F, DirB=F, K=3, heap=big),
                      m('SetOps', Op=q, DirA=T, DirB=T, NLabs=A, ELabs=NONE),
                      m('SetOps', Op=q, DirA=T, DirB=T, NLabs=NONE, ELabs=A)]
    if prop == 'C08':
        r += [m('LabelMap')]
    if prop in ('C12', 'C13', 'C14', 'C16'):
        modes = dict(C12=['dump'], C13=['export'], C14=['csv'], C16=['dump', 'export', 'csv'])[prop]
        for o in modes:
            q = '"%s"' % o
            if prop != 'C16':
                r += [m('Files', Mode=q, Stale='"any"')]
            r += [m('Files', Mode=q, Stale='"full"', Faulty=T), ]
            if t or prop != 'C16':
                r += [m('Files', Mode=q, Stale='"full"', Faulty=T, BufSize=3, Block=2)]
            if t:
                r += [m('Files', Mode=q, Stale='"any"', Faulty=T, MaxN=3, BufSize=3, Block=2, heap=big),
                      m('Files', Mode=q, Stale='"full"', Faulty=T, MaxN=4, BufSize=4, Block=3)]
    if prop == 'C14':
        r += [m('CsvMC'), m('CsvMC', NRows=2, MaxLab=2)]
        if t:
            r += [m('CsvMC', Alphabet='{"a", ",", "\\"", "\\n", "\\r", " ", "\\t"}', MaxLab=4, heap=big)]
    if prop == 'C15':
        rows = dict(Kind='"rows"', Alphabet='{"1", "x", ",", "\\"", "\\n"}')
        r += [m('CsvMC', MaxText=4, **rows),
              m('CsvMC', Kind='"rows"', Alphabet='{"1", "2", ",", "\\n"}', MaxText=5, Dir=F)]
        if t:
            r += [m('CsvMC', MaxText=6, heap=big, **rows),
                  m('CsvMC', Kind='"rows"', Alphabet='{"1", "2", ",", "\\n"}', MaxText=7, Dir=T, heap=big)]
    if prop in ('C17', 'C18'):
        q = '"bfs"' if prop == 'C17' else '"dfs"'
        r += [m('Traversal', Kind=q)]
        if prop == 'C18':
            r += [m('Traversal', Kind=q, Parts=T)]
        if t:
            r += [m('Traversal', Kind=q, N=4, heap=big)]
    if prop in ('C19', 'C20'):
        r += [m('UnionFind')]
        if t:
            r += [m('UnionFind', N=5), m('UnionFind', N=6, heap=big)]
    if prop == 'C20':
        r += [m('Subgraphs'), m('Subgraphs', Dir=F), m('Subgraphs', N=2, NLabs=A, ELabs=A)]
        if t:
            r += [m('Subgraphs', N=4, Dir=F, heap=big), m('Subgraphs', N=3, NLabs=A, ELabs=NONE),
                  m('Subgraphs', N=3, NLabs=NONE, ELabs=A, Dir=F)]
    if prop == 'C23':
        r += [m('Reorder'), m('Reorder', Dir=F),
              m('Reorder', K=2, NLids='{0, 1}', ELids='{0, 1}', DoN=T, DoNL=T, DoEL=T, Dir=F)]
        if t:
            r += [m('Reorder', K=2, NLids='{0, 1}', ELids='{0, 1}', DoN=a, DoNL=b, DoEL=c, Dir=d)
                  for a, b, c, d in ((T, F, F, T), (F, T, F, T), (F, F, T, T), (F, T, T, F))]
            r += [m('Reorder', K=4, Dir=F, heap=big)]
    if prop == 'C24':
        for k in ('gnm', 'gnp', 'gnp0', 'gnp1', 'complete', 'empty'):
            for d in (T, F):
                r += [m('Gen', Kind='"%s"' % k, Dir=d, N=3 if k in ('gnm', 'gnp') else 3, M=2 if d == T else 3,
                        NLabs='<-L1', ELabs='<-L1')]
        r += [m('Gen', Kind='"gnm"', Dir=F, N=3, M=4, NLabs='<-L0', ELabs='<-L0')]
        if not t:
            r = r[:5] + r[-1:] + [m('Gen', Kind='"complete"', Dir=T, N=2, M=0, NLabs='<-L2', ELabs='<-L2')]
        else:
            r += [m('Gen', Kind='"%s"' % k, Dir=F, N=4, M=3, NLabs='<-L0', ELabs='<-L2') for k in ('gnm', 'gnp')]
    if prop == 'C27':
        r += [m('LdbcMC'), m('LdbcMC', Dir=F)]
    if prop == 'C28':
        r += [m('TypedMap'), m('Files', Mode='"dump"', Stale='"none"', BufSize=3, Block=2)]
        if t:
            r += [m('TypedMap', MaxLen=b * 3, MaxWidth=8, Block=b) for b in (1, 3, 4, 7, 8)]
    return r


GRAPH_TOURS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C25', 'C26')


def schedules(prop, thorough):
    r = []
    if prop in GRAPH_TOURS:
        r += [s('GraphMapImpl', 'd 2', Dir=T, Handles=F), s('GraphMapImpl', 'u 2', Dir=F, Handles=F),
              s('GraphMapImpl', 'u 3', Dir=F, K=3, NLabs=NONE, ELabs=NONE, Handles=F)]
        if thorough:
            r += [s('GraphMapImpl', 'd 3', Dir=T, K=3, NLabs=NONE, ELabs=NONE, Handles=F),
                  s('GraphMapImpl', 'u 2', Dir=F, NLabs=AB, ELabs=A, Handles=F),
                  s('GraphMapImpl', 'u 2', Dir=F, NLabs=A, ELabs=AB, Handles=F)]
    if prop == 'C25':
        r += [s('GraphMapImpl', 'u 2', Dir=F, NLabs=NONE, ELabs=A, Handles=T),
              s('GraphMapImpl', 'd 2', Dir=T, NLabs=A, ELabs=NONE, Handles=T)]
        if thorough:
            r += [s('GraphMapImpl', 'd 2', Dir=T, NLabs=NONE, ELabs=A, Handles=T),
                  s('GraphMapImpl', 'u 2', Dir=F, NLabs=A, ELabs=A, Handles=T)]
    if prop in ('C06', 'C08'):
        r += [s('LabelMap', 't', Items=AB if not thorough else '{"a", "b", "c"}')]
    if prop == 'C19':
        r += [s('UnionFind', 'c 4', N=4)] if not thorough else [s('UnionFind', 'c 5', N=5)]
    return r


def tour(cfg, out, seed):
    """walks from the initial state that together take every printed transition;
    transitions that lead nowhere are taken together, followed by one look (o)"""
    rng = random.Random(seed)
    out_of, first = {}, None
    for line in out.splitlines():
        if not line.startswith('"T|'):
            continue
        _, a, op, b = re.split(r'\|(?!->)', line.strip()[1:-1])
        if first is None:
            first = a
        d = out_of.setdefault(a, {})
        d[op] = b
    loops, moves = {}, {}
    for a in sorted(out_of):
        ops = sorted(out_of[a].items())
        rng.shuffle(ops)
        loops[a] = [o for o, b in ops if b == a]
        moves[a] = [(o, b) for o, b in ops if b != a]
    left = sum(len(x) for x in moves.values())
    unlooped = set(a for a in loops)
    chunks, limit = [], 160
    at, walk = first, []

    def look(a):
        if a in unlooped:
            unlooped.discard(a)
            if loops[a]:
                walk.extend(loops[a])
                walk.append('o')
    while True:
        look(at)
        if moves.get(at):
            op, b = moves[at].pop()
            walk += [op, 'o']
            at = b
        else:
            # nearest state with something left
            prev, q, goal = {at: None}, deque([at]), None
            while q and goal is None:
                x = q.popleft()
                for o, b in out_of.get(x, {}).items():
                    if b not in prev:
                        prev[b] = (x, o)
                        if moves.get(b) or b in unlooped:
                            goal = b
                            break
                        q.append(b)
            if goal is None:
                # not reachable from here: start again, unless nothing is left
                chunks.append(walk)
                if not any(moves.values()) and not unlooped:
                    break
                if not walk:
                    break
                at, walk = first, []
                continue
            path, x = [], goal
            while prev[x]:
                path.append(prev[x][1])
                x = prev[x][0]
            walk += path[::-1]
            at = goal
        if len(walk) > limit:
            look(at)
            chunks.append(walk)
            at, walk = first, []
    head = cfg['head']
    if head == 't':
        head += ' ' + ' '.join(k[0] for k in re.findall(r'k \|-> "(\w)', first))
    return [head + ' ' + ' '.join(c) for c in chunks if c]
