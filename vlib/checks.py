"""The checks: for each property, the recorded suites with the trace specification that judges them, and the
specification modules checked exhaustively."""
from .check import Check


def search(c):
    players, m, minimal, half, rows = c.split()
    return ('mc/MC_Search.tla', '''SPECIFICATION Spec
CONSTANTS Players <- %s M = %s Minimal = %s Half = %s Rows = %s Worths = {0,1,2,3} Pi = 2 Zero = 1 ForceFull = TRUE
INVARIANTS Outcome MinimalAnswer
PROPERTIES Frozen Ends
CHECK_DEADLOCK FALSE
''' % (players, m, minimal, half, rows))


def proj(rows, leasts='{0,2}'):
    return ('mc/MC_Proj.tla', 'INIT Init\nNEXT Next\nCONSTANTS Rows = %d Leasts = %s\n'
            'INVARIANTS Sound Exact FullIsLeaf NothingKnown Enough RuleInvariant Weights BoxIsPoint\nCHECK_DEADLOCK FALSE\n' % (rows, leasts))


def game(what, rows=2, cols=2):
    return ('mc/MC_Game.tla', 'INIT Init\nNEXT Next\nCONSTANTS Rows = %d Cols = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (rows, cols, what))


def est(what, size=2, depth=1):
    return ('mc/MC_Est.tla', 'INIT Init\nNEXT Next\nCONSTANTS Size = %d Depth = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (size, depth, what))


def life(kind):
    return ('mc/MC_Life.tla', 'SPECIFICATION LSpec\nCONSTANTS Kind = "%s" Length = $LENGTH Chunk = 40\nINVARIANTS Current Replay\nCHECK_DEADLOCK FALSE\n' % kind,
            dict(OUT='$WORK/histories.ndjson'))


COUNTER = ('mc/MC_Counter.tla', 'SPECIFICATION CSpec\nCONSTANTS Boxes <- AllBoxes Many = 3 Top = 2\nINVARIANTS Removes Covers\nCHECK_DEADLOCK FALSE\n')

GROWTH = ('mc/MC_Growth.tla', 'SPECIFICATION Spec\nCONSTANT Top = 3\nINVARIANTS IsBox SoundGrowth Grows\nPROPERTY Strict\nCHECK_DEADLOCK FALSE\n')

CHECKS = {c.pid: c for c in [
    Check('P01', [('leaf', 'ingest', 'TraceLeaf', 190, 1520)]),
    Check('P02', [('leaf', 'shap', 'TraceLeaf', 160, 1600)],
          mc=[game('ByOrders Efficiency Dummy LeafWise')], thorough_mc=[game('ByOrders Efficiency Dummy LeafWise', 2, 3)]),
    Check('P03', [('leaf', 'group', 'TraceLeaf', 160, 1600)],
          mc=[game('Grouped')], thorough_mc=[game('Grouped', 2, 3)]),
    Check('P04', [('life', 'treelife', 'TraceLife', 0, 0, 'histories.ndjson')], mc=[life('tree')]),
    Check('P05', [('leaf', 'active', 'TraceLeaf', 120, 1200), ('leaf', 'adaptive', 'TraceLeaf', 100, 1000)],
          mc=[game('Active')], thorough_mc=[game('Active', 2, 3)]),
    Check('P06', [('leaf', 'exp', 'TraceLeaf', 120, 1200)],
          mc=[est('Discrete Nothing Everything')], thorough_mc=[est('Discrete Nothing Everything', 3, 2)]),
    Check('P07', [('leaf', 'sdp', 'TraceLeaf', 120, 1200), ('leaf', 'fitclf', 'TraceLeaf', 96, 960)],
          mc=[est('Convex KindsSplit Scale')], thorough_mc=[est('Convex KindsSplit Scale', 3, 2)]),
    Check('P08', [('leaf', 'search', 'TraceLeaf', 96, 960), ('leaf', 'fitclf', 'TraceLeaf', 96, 960)],
          mc=[search('P3 3 0 FALSE {1}'), search('P3 3 1 TRUE {1}'), search('PG 3 1 TRUE {1,2}')],
          thorough_mc=[search('PH 4 1 TRUE {1}')]),
    Check('P09', [('proj', 'ptree', 'TraceProj', 120, 1200, None, 'compute_(sdp_rf|exp|cdf)|shaff'), ('proj', 'pquantile', 'TraceProj', 60, 600),
                  ('proj', 'pacx', 'TraceProj', 72, 720, None, 'compute_(sdp_rf|exp_rf|cdf_rf)')],
          mc=[proj(2)], thorough_mc=[proj(3, '{0,1,2,3}')]),
    Check('P10', [('proj', 'psearch', 'TraceProj', 120, 1200, None, 'importance_sdp_rf')],
          mc=[search('P3 3 1 TRUE {1}'), search('PG 3 1 FALSE {1,2}')], thorough_mc=[search('PH 4 1 TRUE {1}')]),
    Check('P11', [('proj', 'psearch', 'TraceProj', 120, 1200, None, 'sufficient_expl_rf|compute_local_sdp')]),
    Check('P12', [('proj', 'pacx', 'TraceProj', 120, 1200, None, 'compute_sdp_rule'), ('proj', 'ptree', 'TraceProj', 60, 600, None, 'compute_sdp_rule')],
          mc=[proj(2)], thorough_mc=[proj(3, '{0,1,2,3}')]),
    Check('P13', [('proj', 'pmax', 'TraceProj', 60, 600)], mc=[proj(2), GROWTH]),
    Check('P14', [('rules', 'grules', 'TraceRules', 100, 1000)]),
    Check('P15', [('life', 'life', 'TraceLife', 0, 0, 'histories.ndjson')], mc=[life('acx')]),
    Check('P16', [('proj', 'pacx', 'TraceProj', 72, 720, None, 'compute_(ddp|cdp)'),
                  ('proj', 'psearch', 'TraceProj', 120, 1200, None, 'importance_(ddp|cdp)|sufficient_cxpl')],
          mc=[search('P3 3 1 TRUE {1}')]),
    Check('P17', [('proj', 'pcond', 'TraceProj', 72, 720), ('proj', 'psearch', 'TraceProj', 60, 1200, None, 'importance_(ddp|cdp)_intv')], mc=[proj(2)]),
    Check('P18', [('leaf', 'regsdp', 'TraceLeaf', 120, 1200), ('leaf', 'regsearch', 'TraceLeaf', 90, 900), ('leaf', 'fitreg', 'TraceLeaf', 72, 720)],
          mc=[search('P3 3 0 FALSE {1}'), est('Square')], thorough_mc=[est('Square', 3, 2)]),
    Check('P19', [('leaf', 'swing', 'TraceLeaf', 120, 1200)],
          mc=[('mc/MC_Swing.tla', 'INIT Init\nNEXT Next\nCONSTANT Size = 3\nINVARIANTS Agree Efficient\nCHECK_DEADLOCK FALSE\n')]),
    Check('P20', [('leaf', 'marginal', 'TraceLeaf', 120, 1200)], mc=[search('P3 3 1 TRUE {1}'), est('Counts')], thorough_mc=[est('Counts', 3, 2)]),
    Check('P21', [('leaf', 'pipeline', 'TraceLeaf', 120, 1200)], mc=[search('P3 3 1 TRUE {1}'), game('Active')]),
    Check('P22', [('leaf', 'shapnorm', 'TraceLeaf', 120, 1200)],
          mc=[game('Shared Mean')], thorough_mc=[game('Shared Mean', 2, 3)]),
    Check('P23', [('cr', 'crlocal', 'TraceCR', 112, 1120)], mc=[COUNTER]),
    Check('P24', [('cr', 'crregional', 'TraceCR', 96, 960)], mc=[COUNTER]),
]}
