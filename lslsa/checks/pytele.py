import warnings
from ..common import Result, AnalysisError
from ..py import mods, telem


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    R = mods.load()
    m = R.mods.get('lsl.misc.telemetry')
    if m is None:
        raise AnalysisError('lsl.misc.telemetry not found')
    T = telem.Tele(R, m)
    if T.cls is None:
        raise AnalysisError('the telemetry client class was not found')
    T.guards()
    T.switch('disable', True)
    T.switch('ignore', False)
    T.possible()
    T.locks()
    T.contained()
    T.wrappers()
    res.add(T.findings)
    res.need('recording_and_sending_operations', T.n['sinks'], 3)
    res.need('wrappers', T.n['wrappers'], 1)
    res.need('switches', T.n['switches'], 2)
    res.count(stores_under_lock=T.n['guarded_stores'], undecided=len(T.und), undecided_list=T.und)
    return res
