"""Which scenarios decide which property, with which bounds."""
import re

class Lib:
    def __init__(self, name, sources, vt='all', opt=None, defs=(), libs=()):
        self.name, self.sources, self.vt, self.opt, self.defs, self.libs = name, sources, vt, opt, tuple(defs), tuple(libs)

class Run:
    """one exploration.  q/t: options for the quick / thorough tier"""
    def __init__(self, name, scenario=None, q=None, t=None, comp=False, lib=None, files=False, thorough_only=False, **common):
        self.name, self.scenario, self.comp, self.lib, self.files, self.thorough_only = name, scenario or name, comp, lib, files, thorough_only
        self.q, self.t, self.common = q or {}, t, common
    def opts(self, tier):
        o = dict(ranks=1 if self.comp else 2, time=120 if tier == 'quick' else 1500)
        o.update(self.common); o.update(self.q)
        if tier == 'thorough' and self.t: o.update(self.t)
        if self.comp: o.setdefault('hang', 600); o['bound'] = 0
        return o

class Check:
    def __init__(self, level, libs, runs, technique, note, rule=''):
        self.level, self.libs, self.runs, self.technique, self.note, self.rule = level, libs, runs, technique, note, rule

def R(scen, spec, files=False, args=(), lib=None, **kw):
    """compact exploration spec: 'r3 m1 d2 [batch] [over]' with an optional '| thorough' part"""
    def parse(s):
        o = {}
        for w in s.split():
            if re.match(r'r\d+$', w): o['ranks'] = int(w[1:])
            elif re.match(r'm\d$', w): o['mode'] = int(w[1:])
            elif re.match(r'd\d+$', w): o['bound'] = int(w[1:])
            elif w == 'batch': o['batch'] = True
            elif w == 'over': o['overtake'] = True
            elif w == 'end': o['to-end'] = True
            elif w == 'lazy': o['rma-lazy'] = True
            elif w == 'points': o['rma-points'] = True
            elif re.match(r'l[\d,]+$', w): o['lags'] = w[1:]
            elif re.match(r't\d+$', w): o['time'] = int(w[1:])
            else: raise ValueError(w)
        return o
    q, _, t = spec.partition('|')
    qo = parse(q); to = parse(t) if t.strip() else {'bound': qo.get('bound', 0) + 1}
    name = scen + '.' + '-'.join(q.split()) + (('.' + '_'.join(re.sub(r'[/ ]', '_', a.lstrip('-').replace('vt_', '')) for a in args)) if args else '')
    return Run(name, scen, q=qo, t=to, files=files, lib=lib, args=list(args), **kw)

MC = 'model_checking'
TECH = 'Stateless model checking of the real runtime: %s; every delivery order within the deviation bound is explored with causal-state deduplication'
SIMNOTE = ('The code built from the current tree runs on 2-4 simulated ranks under a controlled message scheduler; every execution within the stated bound on late '
           'deliveries is explored, exhaustively, and checked against the scenario oracle. MPI itself and the serialization library are replaced by models; bounds: ranks, '
           'messages per scenario, number of late deliveries.')
CHECKS = {}
def sim_check(pid, what, libs, runs, note=''):
    CHECKS[pid] = Check(MC, libs, runs, TECH % what, (SIMNOTE + ' ' + note).strip())

AM = Lib('am', ['am.cc'])
S256 = ['--vt_max_mpi_send_size=256']
sim_check('C01', 'point-to-point messages of every kind (plain, typed arguments, serialized, separate and packed payloads, chunked) between simulated ranks', [AM], [
    R('am_send', 'r3 m0 d2 batch | r3 m0 d3 batch'), R('am_send', 'r2 m1 d2 batch'), R('am_send', 'r2 m2 d1 | r3 m2 d1'), R('am_params', 'r3 m0 d1 | r3 m0 d3'), R('am_pending', 'r2 m1 d1'),
    R('am_chunk', 'r2 m0 d2 over', args=S256), R('am_chunk', 'r2 m1 d1 batch', args=S256), R('am_chunk_sweep', 'r2 m0 d0', args=S256),
    R('am_put', 'r2 m1 d2 batch'), R('am_put', 'r2 m0 d1 batch over', args=S256), R('am_put_fanin', 'r3 m0 d2 over'), R('am_put_fanin', 'r3 m1 d1 batch'),
    R('am_put_sweep', 'r2 m0 d0 | r3 m0 d0'), R('am_put_sweep', 'r2 m0 d0', args=S256), R('am_serial', 'r2 m0 d2 over batch', args=S256), R('am_serial', 'r3 m0 d2 over | r3 m1 d2'), R('am_serial', 'r2 m2 d1 | r2 m2 d2'),
])
sim_check('C02', 'broadcasts of every message kind from every root', [AM], [
    R('am_bcast', 'r4 m0 d1 | r4 m0 d2'), R('am_bcast', 'r3 m0 d2 batch over | r3 m0 d3 batch'), R('am_bcast', 'r2 m1 d2'), R('am_bcast_root', 'r5 m0 d1'), R('am_bcast_root', 'r4 m0 d1 batch | r4 m0 d2'), R('am_bcast_root', 'r3 m1 d1'),
    R('am_bcast_kinds', 'r3 m0 d2 over'), R('am_bcast_kinds', 'r3 m0 d1', args=S256), R('am_bcast_kinds', 'r2 m2 d1'), R('am_bcast_params', 'r3 m0 d2'),
])

TERM = Lib('term', ['term.cc'])
FORMS = Lib('forms', ['forms.cc'])
WAVE = ['--vt_term_rooted_use_wave']
sim_check('C03', 'termination detection of collective, rooted (both detectors) and nested epochs over message cascades, and every way of sending followed by every other', [TERM, FORMS], [
    R('term_coll', 'r3 m0 d2 batch | r3 m0 d3'), R('term_coll', 'r2 m1 d2'), R('term_coll', 'r4 m0 d1 | r4 m0 d2'), R('term_two', 'r3 m0 d2 | r3 m0 d3'), R('term_rooted', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('term_rooted', 'r2 m1 d1 | r2 m1 d2'), R('term_rooted_fan', 'r3 m0 d2'), R('term_rooted_fan', 'r2 m0 d3 batch'),
    R('term_nested', 'r3 m0 d1 | r3 m0 d3'), R('term_nested_rooted', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('term_nested_rooted', 'r2 m1 d1'), R('term_nested_local', 'r3 m0 d2'), R('term_nested_coll', 'r3 m0 d2'), R('term_runin', 'r3 m0 d2'), R('term_runin', 'r2 m1 d1', args=WAVE),
    R('term_many', 'r3 m0 d1'), R('term_many', 'r2 m0 d2 batch | r2 m0 d3 batch'), R('term_late_finish', 'r3 m0 d2'), R('term_produce', 'r3 m0 d2'), R('term_chain', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('term_chain_wave', 'r3 m0 d2 | r3 m0 d3 t120'), R('term_chain_ds', 'r3 m0 d2 | r3 m0 d3 t120'), R('term_chain', 'r2 m1 d1 batch | r3 m1 d1 batch'), R('term_units', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('term_units', 'r2 m1 d1 batch | r2 m1 d2 batch'), R('term_again', 'r3 m0 d2 batch | r3 m0 d3 t120'), R('term_again', 'r2 m1 d1 batch | r2 m1 d2 batch'), R('term_dag', 'r3 m0 d0 | r3 m0 d1 batch'), R('term_dag_wave', 'r3 m0 d0 | r3 m0 d1 batch'), R('term_dag_ds', 'r3 m0 d0 | r3 m0 d1 batch'), R('term_dag_mix', 'r3 m1 d0 | r2 m1 d1 batch'), R('term_dag_some', 'r3 m0 d1 | r3 m0 d2 t120'), R('term_dag_some', 'r2 m1 d1 batch | r3 m1 d1 batch t120'), R('term_hold', 'r3 m0 d2 batch | r3 m0 d3 batch t120'), R('term_hold', 'r2 m1 d1 batch | r3 m1 d2 batch t120'), R('term_global', 'r3 m0 d2 end'), R('term_remote_action', 'r2 m0 d0 | r2 m0 d0'),
    R('form_same', 'r2 m0 d1 | r3 m0 d1', lib='forms'), R('form_same', 'r3 m1 d0 | r3 m1 d1', lib='forms'), R('form_pairs', 'r2 m0 d0 | r2 m0 d1', lib='forms'), R('form_pairs', 'r3 m0 d0 | r3 m0 d1', lib='forms'), R('form_same', 'r3 m0 d0', args=S256, lib='forms'), R('form_same', 'r2 m1 d0', args=S256, lib='forms'),
])
sim_check('C04', 'actions attached to epochs (before, during and after termination, nested, move-only, global)', [TERM], [
    R('term_action_many', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('term_action_many', 'r2 m1 d1 batch | r3 m1 d1 batch'), R('term_action_work', 'r3 m0 d2 batch'), R('term_action_work', 'r2 m1 d2'), R('term_action_in_action', 'r3 m0 d2 batch'), R('term_action_in_action', 'r2 m1 d2'), R('term_unique', 'r3 m0 d2'), R('term_global', 'r3 m0 d2 end batch | r4 m0 d2 end batch'),
    R('term_nested_coll', 'r3 m0 d2'), R('term_nested_local', 'r2 m0 d3 batch'), R('term_many', 'r2 m0 d2'), R('term_two', 'r3 m0 d1 | r3 m0 d2'), R('term_coll', 'r3 m0 d2'), R('term_rooted', 'r2 m0 d2 batch', args=WAVE), R('term_late_finish', 'r2 m1 d2'),
])

# ---------------------------------------------------------------- component checks
EX = 'exploration'
def comp_check(pid, what, lib, scens, rule, note='', files=False):
    CHECKS[pid] = Check(EX, [lib], [Run(s, comp=True, files=files) for s in scens], 'Exhaustive bounded enumeration of %s, executed on the real code against a reference model' % what,
        ('Every case within the stated bounds is executed on code built from the current tree and compared with an independently written reference. ' + note).strip(), rule)
ADT = Lib('adt', ['comp_adt.cc'], vt=[], opt='-O1')
comp_check('C30', 'word values, field positions and lengths', ADT, ['bits'], 'one field write + read back per (word, value, position, length)')
comp_check('C32', 'insert/erase/interval sequences on the integral set', ADT, ['intset'], 'one whole-set comparison after an operation sequence')
comp_check('C33', 'push/pop/step sequences on bounded queues and counters', ADT, ['circular', 'ranged', 'runq', 'prioq'], 'one operation compared with the reference')
comp_check('C34', 'insertion and merge sequences on streaming histograms', ADT, ['histd', 'histi'], 'one whole-histogram comparison')
comp_check('C35', 'data series given to the linear regression', ADT, ['linreg'], 'one fitted series')
IDS = Lib('ids', ['comp_ids.cc'], vt=['epoch/epoch_manip.cc', 'epoch/epoch_window.cc', 'handler/handler.cc', 'group/id/group_id.cc', 'pipe/id/pipe_id.cc', 'rdma/rdma_handle.cc', 'objgroup/proxy/proxy_bits.cc', 'elm/elm_id_bits.cc', 'elm/elm_id.cc', 'event/event_id.cc', 'vrt/proxy/proxy_bits.cc', 'vrt/collection/proxy_builder/elm_proxy_builder.cc', 'scheduler/priority_manip.cc'], opt='-O1')
comp_check('C31', 'epoch identifiers and allocate/terminate histories of the epoch window', IDS, ['epochs', 'epoch_window'], 'one epoch identifier or one history')
comp_check('C41', 'field values of handler, proxy, group, pipe, event, RDMA and element identifiers', IDS, ['handlers', 'proxies', 'elmids'], 'one identifier built and read back')
CHECKS['C41'].libs.append(Lib('idr', ['idr.cc'])); CHECKS['C41'].runs.append(R('ids_made', 'r3 m0 d0 | r4 m0 d0', lib='idr'))
comp_check('C53', 'field values and transitions of message envelopes and priority words', IDS, ['envelopes', 'priorities'], 'one envelope or priority word compared field by field')
GRP = Lib('grp', ['comp_grp.cc'], vt=['group/region/group_range.cc', 'group/region/group_list.cc', 'group/region/group_shallow_list.cc', 'group/region/group_region.cc', 'pool/pool.cc', 'pool/header/pool_header.cc'], opt='-O1')
comp_check('C36', 'ranges, lists and shallow lists of ranks and every way of dividing them', GRP, ['grp_range', 'grp_list'], 'one region compared with the set of ranks it stands for')
comp_check('C37', 'allocate/free/grow sequences on the memory pool', GRP, ['pool_ops', 'pool_many'], 'one live block verified after an operation')
IDX = Lib('idx', ['comp_idx.cc'], vt=[], opt='-O1')
comp_check('C38', 'index values, collection shapes and rank counts', IDX, ['idx_shapes', 'idx_values'], 'one index mapped, linearized, packed or compared')
JSN = Lib('json', ['comp_json.cc'], vt=['@brotli', 'utils/compress/compressor.cc', 'utils/json/decompression_input_container.cc', 'utils/json/json_reader.cc'], opt='-O1')
comp_check('C39', 'data lengths, write cuts, buffer and chunk sizes of compressed streams and JSON documents', JSN, ['compress_rt', 'json_rt', 'json_files'], 'one byte stream or document written and read back', files=True)
LBC = Lib('lbc', ['comp_lb.cc'], vt=['vrt/collection/balance/read_lb.cc', 'vrt/collection/balance/lb_type.cc', 'elm/elm_lb_data.cc', 'elm/elm_id.cc', 'elm/elm_id_bits.cc'], opt='-O1')
comp_check('C48', 'lines, layouts and phases of LB configuration files', LBC, ['lb_config'], 'one phase looked up in one file, or one parameter converted', files=True)
comp_check('C55', 'timing, communication, subphase and phase sequences on the LB data of an element', LBC, ['elm_data', 'comm_keys'], 'one whole comparison after a sequence, or one pair of edges')
MSC = Lib('misc', ['comp_misc.cc'], vt=['@eng', 'termination/graph/epoch_graph.cc', 'epoch/epoch_manip.cc', 'epoch/epoch_window.cc', 'runtime/component/component_pack.cc', 'pipe/signal/signal_holder.cc', 'pipe/state/pipe_state.cc', 'timetrigger/time_trigger_manager.cc'], opt='-O1')
comp_check('C49', 'graphs of epochs', MSC, ['epoch_graph'], 'one graph drawn, merged, serialized or checked for cycles')
comp_check('C50', 'dependency relations and sets of runtime components', MSC, ['comp_pack'], 'one pack constructed, polled and destructed')
comp_check('C51', 'listener and signal histories of signal holders and pipe states', MSC, ['signals'], 'one operation compared with the reference')
comp_check('C25', 'add, remove and poll histories of time triggers', MSC, ['time_triggers'], 'one operation compared with the reference')
COL = Lib('coll', ['coll.cc'])
sim_check('C05', 'reductions with every operator, stamped and chained, with several contributions per rank', [COL], [
    R('red_ops', 'r3 m0 d1 | r3 m0 d3'), R('red_ops2', 'r3 m1 d1 batch | r3 m1 d2 batch'), R('red_stamp', 'r3 m0 d2 | r4 m0 d2'), R('red_contrib', 'r3 m0 d2 | r4 m0 d2'), R('red_contrib', 'r4 m1 d1'), R('red_chain', 'r3 m0 d1 | r3 m0 d3'), R('red_stamp', 'r2 m2 d1 over | r2 m2 d2 over'),
    R('red_ops', 'r5 m0 d0 | r5 m0 d1'), R('red_ops2', 'r7 m0 d0 | r6 m0 d1'), Run('red_functors', comp=True, lib='misc')])
CHECKS['C05'].libs.append(MSC)
sim_check('C06', 'barriers (blocking, polling, with continuations, named) and scatters', [COL], [
    R('bar_wait', 'r3 m0 d2 | r4 m0 d3'), R('bar_cont', 'r3 m0 d2 | r3 m0 d3'), R('bar_named', 'r3 m0 d2 | r4 m0 d2'), R('bar_poll', 'r3 m0 d2 | r4 m0 d2'), R('bar_cont', 'r2 m2 d1 over | r2 m2 d2 over'), R('bar_wait', 'r4 m1 d1 batch'), R('bar_named', 'r4 m1 d1'), R('scat', 'r3 m0 d2 | r4 m0 d2'), R('scat', 'r4 m1 d1 batch'), R('scat', 'r5 m0 d0 | r6 m0 d1'), R('scat', 'r7 m0 d0 | r8 m0 d0')])
sim_check('C42', 'the default spanning tree of 1 to 13 ranks', [COL], [R('tree', 'r%d m0 d0 | r%d m0 d%d' % (n, n, n < 9)) for n in range(1, 14)])
sim_check('C56', 'MPI operations enqueued in collective scopes in different orders on different ranks', [COL], [
    R('scope_async', 'r3 m0 d1 | r3 m0 d2'), R('scope_clash', 'r3 m0 d1 | r3 m0 d2'), R('scope_wait', 'r3 m0 d1 | r3 m0 d2'), R('scope_drop', 'r3 m0 d1 | r3 m0 d3'), R('scope_epochs', 'r3 m0 d1 batch | r3 m0 d2'), R('scope_epochs', 'r3 m0 d1 over | r4 m0 d1 batch over'), R('scope_epochs', 'r2 m2 d1 over | r3 m1 d1'), R('scope_async', 'r2 m2 d1 over | r2 m2 d2 over'), R('scope_clash', 'r4 m1 d1 batch'), R('scope_wait', 'r4 m1 d1')])
UTL = Lib('util', ['comp_util.cc'], vt=['@eng', 'utils/memory/memory_units.cc', 'utils/demangle/demangle.cc'], opt='-O1')
comp_check('C44', 'byte counts, unit names and pairs of times', UTL, ['mem_units', 'times'], 'one byte count shown, or one pair of times combined')
comp_check('C45', 'type and function names assembled from every sequence of tokens', UTL, ['names'], 'one name taken apart, or one string split and joined')
comp_check('C59', 'values, reduction trees and update histories of diagnostics and load statistics', UTL, ['stats_diag', 'stats_load', 'stats_snap'], 'one merged statistic, or one update history')
THR = Lib('thr', ['comp_thr.cc'], vt=['@fcontext', 'scheduler/thread_action.cc', 'scheduler/thread_manager.cc'], opt='-O1', defs=['-Dvt_feature_cmake_fcontext=1'])
comp_check('C58', 'run, suspend, resume and nesting histories of user-level threads and raw contexts, and histories of their stacks', THR, ['thr_histories', 'thr_manager', 'ctx_jumps', 'ctx_stacks'], 'one whole history of switches, or of stack allocations')
LOC = Lib('loc', ['loc.cc'])
sim_check('C07', 'messages and location requests for entities that are registered, and move, while they are on their way', [LOC], [
    R('loc_static', 'r3 m0 d1 batch | r3 m0 d2'), R('loc_static', 'r2 m1 d1 | r3 m1 d1'), R('loc_static', 'r5 m0 d0 | r5 m0 d1'), R('loc_query', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('loc_query', 'r2 m1 d1'), R('loc_late', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('loc_late_s', 'r3 m0 d0 | r3 m0 d1 batch'), R('loc_late_l', 'r3 m0 d0 | r3 m0 d1 batch'), R('loc_late_a', 'r3 m0 d0 | r3 m0 d1 batch'), R('loc_late_home_s', 'r2 m1 d1 batch'), R('loc_late_home_l', 'r2 m1 d1 batch'), R('loc_late_home_a', 'r2 m1 d1 batch'), R('loc_late_home', 'r3 m0 d0 | r3 m0 d2 batch'), R('loc_late', 'r2 m1 d0 | r3 m1 d1 batch'),
    R('loc_chase_s', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('loc_chase_l', 'r3 m0 d2 | r3 m0 d2 batch'), R('loc_chase_a', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('loc_chase_home', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('loc_chase_long', 'r3 m0 d1 | r3 m0 d2 batch'), R('loc_chase_4s', 'r4 m0 d1 batch | r4 m0 d2'), R('loc_chase_4l', 'r4 m0 d1 end | r4 m0 d2'), R('loc_chase_l', 'r3 m2 d0 | r3 m2 d1'), Run('loc_tables', comp=True, lib='util'),
])
CHECKS['C07'].libs.append(UTL)
CLN = Lib('coln', ['coln.cc'])
CLX = Lib('colx', ['colx.cc'])
sim_check('C08', 'collections made collectively or by one rank, with messages, broadcasts, chains of messages and reductions over their elements', [CLN, CLX], [
    R('col_send', 'r3 m0 d2 | r3 m0 d2 batch'), R('col_chain', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('col_chain', 'r2 m1 d2 batch | r3 m1 d2'), R('col_bcast', 'r3 m0 d2 | r4 m0 d2'), R('col_red', 'r3 m0 d2 | r3 m0 d2 batch'), R('col_allred', 'r3 m0 d2 batch'), R('col_few', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('col_few', 'r2 m1 d1 batch | r2 m1 d2 batch'), R('col_few', 'r4 m0 d1 | r4 m0 d2'),
    R('col_make', 'r3 m0 d1 batch | r3 m0 d2'), R('col_make', 'r2 m1 d1 batch'), R('col_root', 'r3 m0 d1 batch | r3 m0 d2'), R('col_root', 'r2 m1 d1'), R('col_send', 'r4 m1 d1'), R('col_bcast', 'r2 m2 d1 over'),
    R('par_maps', 'r3 m0 d1 batch | r3 m0 d2 batch', lib='colx'), R('par_maps', 'r2 m1 d1 batch', lib='colx'), R('par_list', 'r3 m0 d1 batch | r3 m0 d2 batch', lib='colx'), R('par_list', 'r4 m2 d0 over', lib='colx'), R('par_roots', 'r3 m0 d1 batch | r3 m0 d2', lib='colx'), R('par_roots', 'r2 m1 d1 batch | r3 m1 d1', lib='colx'), R('par_roots', 'r4 m2 d0 over | r3 m2 d1 over batch', lib='colx'), R('par_builds', 'r3 m0 d1 | r3 m0 d2', lib='colx'), R('par_builds', 'r2 m0 d1 batch | r4 m1 d1 batch', lib='colx'), R('par_defer', 'r3 m0 d1 batch | r4 m0 d2', lib='colx'), R('par_defer', 'r2 m1 d1 batch', lib='colx')])
sim_check('C09', 'collections whose elements migrate (also onto a single rank and back) between epochs of messages, broadcasts and reductions', [CLN], [
    R('mig_all', 'r3 m0 d1 batch | r3 m0 d2'), R('mig_all', 'r2 m1 d1 batch | r2 m0 d3 batch'), R('mig_back', 'r3 m0 d1 batch | r3 m0 d2'), R('mig_back', 'r4 m0 d1'), R('mig_gather', 'r3 m0 d1 batch | r3 m0 d2'), R('mig_gather', 'r2 m1 d1 batch | r2 m1 d2'), R('mig_listen', 'r3 m0 d1 batch | r3 m0 d2'), R('mig_listen', 'r2 m0 d2 batch'), R('mig_all', 'r2 m2 d1 over'),
    R('col_mig_race', 'r3 m0 d0 | r3 m0 d0')])
sim_check('C10', 'collections with dynamic membership: elements inserted (on their own or a chosen rank, also by several ranks at once) and destroyed', [CLN, CLX], [
    R('ins_basic', 'r3 m0 d1 batch | r3 m0 d2'), R('ins_race', 'r3 m0 d1 batch | r3 m0 d2'), R('ins_race', 'r2 m1 d1 batch | r2 m1 d2'), R('ins_del', 'r3 m0 d1 batch | r3 m0 d2'), R('ins_red', 'r3 m0 d1 batch | r3 m0 d2'), R('ins_red', 'r2 m1 d1'), R('ins_away', 'r3 m0 d1 batch | r3 m0 d2'), R('ins_away', 'r2 m0 d2 batch'), R('ins_race', 'r4 m0 d1'), R('ins_del', 'r2 m2 d1 over'),
    R('ins_again', 'r3 m0 d1 batch | r3 m0 d2', lib='colx'), R('ins_again', 'r2 m1 d1 batch', lib='colx'), R('ins_reuse', 'r3 m0 d1 batch | r3 m0 d2', lib='colx'), R('ins_reuse', 'r2 m1 d1 batch', lib='colx'), R('ins_twice', 'r3 m0 d1 batch | r3 m0 d2', lib='colx'), R('ins_twice', 'r2 m1 d1 batch', lib='colx'), R('ins_swap', 'r3 m0 d1 batch | r3 m0 d2', lib='colx'), R('ins_swap', 'r2 m1 d1 batch', lib='colx'), R('ins_mig', 'r3 m0 d1 batch | r3 m0 d2 batch', lib='colx'), R('ins_mig', 'r2 m1 d1 batch | r3 m2 d1 over batch', lib='colx'), R('ins_mig', 'r4 m1 d0 | r3 m1 d1', lib='colx'), R('ins_han', 'r3 m0 d1 batch | r3 m0 d2', lib='colx'), R('ins_han', 'r2 m1 d1 batch', lib='colx'), R('ins_nobound', 'r3 m0 d1 batch | r3 m0 d2', lib='colx')])
sim_check('C23', 'collections with migrated elements saved to files and restored, into a new collection or in place', [CLN], [
    R('ckpt_flat', 'r3 m0 d1 batch | r3 m0 d2', files=True), R('ckpt_flat', 'r2 m1 d1 batch', files=True), R('ckpt_dirs', 'r3 m0 d1 | r3 m0 d2', files=True), R('ckpt_dirs', 'r2 m0 d2 batch', files=True), R('ckpt_dirs', 'r4 m0 d1', files=True), R('ckpt_place', 'r3 m0 d1 batch | r3 m0 d2', files=True), R('ckpt_place', 'r2 m1 d1', files=True), R('ckpt_place', 'r4 m0 d1', files=True)])
GRO = Lib('group', ['grp.cc'])
sim_check('C11', 'groups of every subset of the ranks (made collectively, also several at a time, or by one rank), with broadcasts to them from every rank and reductions over them', [GRO], [
    R('grp_coll', 'r3 m0 d1 batch | r3 m0 d2'), R('grp_coll', 'r2 m1 d1 batch | r2 m1 d2'), R('grp_coll', 'r4 m1 d0 | r4 m1 d1 batch'), R('grp_coll', 'r7 m0 d0 | r5 m0 d1'), R('grp_deep', 'r16 m0 d0 | r12 m0 d1 t600'), R('grp_deep', 'r15 m1 d0'), R('grp_deep', 'r13 m2 d0'), R('grp_deep', 'r14 m2 d0 over'), R('grp_early', 'r3 m0 d1 batch | r4 m0 d2'), R('grp_early', 'r6 m1 d0 | r4 m1 d1 batch'), R('grp_early_ds', 'r3 m0 d1 batch | r4 m0 d1 batch'), R('grp_early_ds', 'r6 m0 d0'), R('grp_early_wave', 'r3 m0 d1 batch over | r3 m0 d2'), R('grp_many', 'r3 m0 d1 batch | r3 m0 d2'), R('grp_many', 'r9 m0 d0 | r6 m0 d1'), R('grp_skew', 'r3 m0 d1 batch | r3 m0 d2'), R('grp_skew', 'r2 m1 d1 batch | r2 m1 d2'), R('grp_skew', 'r7 m0 d0 | r5 m0 d1'),
    R('grp_mpi', 'r3 m0 d1 batch | r3 m0 d2'), R('grp_rooted', 'r3 m0 d1 batch | r3 m0 d2'), R('grp_rooted', 'r2 m1 d1 batch | r2 m1 d2'), R('grp_rooted', 'r4 m1 d0 | r4 m1 d1 batch'), R('grp_rooted', 'r7 m0 d0 | r5 m0 d1'), R('grp_range', 'r3 m0 d1 batch | r3 m0 d2'), R('grp_range', 'r9 m0 d0 | r5 m0 d1'), R('grp_range', 'r3 m1 d1 | r2 m1 d2'), R('grp_rooted', 'r3 m2 d0 over | r3 m2 d1 over')])
CBL = Lib('cb', ['cb.cc'])
sim_check('C12', 'callbacks of every kind, made on one rank, invoked on another and run at their target, for every such triple of ranks', [CBL], [
    R('cb_send', 'r3 m0 d1 batch | r3 m0 d2'), R('cb_send', 'r2 m1 d1 batch | r2 m1 d2'), R('cb_send', 'r5 m0 d0 | r4 m0 d1'), R('cb_bcast', 'r3 m0 d1 batch | r3 m0 d2'), R('cb_bcast', 'r5 m0 d0 | r4 m0 d1'), R('cb_bcast', 'r2 m2 d1 over batch'), R('cb_obj', 'r3 m0 d1 batch | r3 m0 d2'), R('cb_obj', 'r2 m1 d1 batch | r2 m1 d2'), R('cb_col', 'r2 m0 d2 batch | r3 m0 d1 batch'), R('cb_col', 'r4 m0 d0 | r4 m0 d1'), R('cb_col', 'r2 m1 d1 batch'),
    R('cb_func', 'r3 m0 d1 batch | r3 m0 d2'), R('cb_func', 'r2 m1 d1 batch | r2 m1 d2'), R('cb_func', 'r2 m2 d1 over batch | r3 m2 d1 over'), R('cb_chain', 'r3 m0 d1 batch | r3 m0 d2'), R('cb_chain', 'r2 m1 d1 batch | r2 m1 d2 batch'), R('cb_rooted', 'r3 m0 d1 batch | r3 m0 d2'), R('cb_rooted', 'r2 m1 d1 batch'), R('cb_far', 'r3 m0 d1 batch | r3 m0 d2 batch t120'), R('cb_far', 'r2 m1 d1 batch | r3 m1 d1 batch'), R('cb_equal', 'r2 m0 d0 | r2 m0 d0')])
OBJ = Lib('obj', ['obj.cc'])
sim_check('C13', 'object groups of every way to make them: messages, broadcasts, multicasts, invocations and reductions, also before the object is made and while it is replaced', [OBJ], [
    R('obj_make', 'r3 m0 d1 batch | r3 m0 d2'), R('obj_make', 'r2 m1 d1 | r4 m1 d1'), R('obj_send', 'r3 m0 d1 batch | r3 m0 d2'), R('obj_send', 'r4 m1 d0 | r4 m1 d1'), R('obj_early', 'r3 m0 d1 batch | r3 m0 d2'), R('obj_early', 'r3 m1 d1 batch | r2 m1 d2 batch'), R('obj_early', 'r3 m2 d1 over'), R('obj_late', 'r3 m0 d0 batch | r3 m0 d1 batch'), R('obj_late', 'r2 m1 d0 batch | r2 m1 d1 batch'), R('obj_chain', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('obj_chain', 'r2 m1 d1 batch | r3 m1 d1'), R('obj_chain', 'r4 m2 d0 over | r3 m2 d1 over batch'), R('obj_update', 'r3 m0 d1 batch | r3 m0 d2'),
    R('obj_swap', 'r3 m0 d1 batch | r3 m0 d2'), R('obj_swap', 'r3 m1 d1 | r2 m1 d2'), R('obj_invoke', 'r3 m0 d2 batch | r3 m1 d2'), R('obj_reduce', 'r3 m0 d1 batch | r3 m0 d2'), R('obj_reduce', 'r5 m0 d0 | r4 m1 d1'), R('obj_multi', 'r3 m0 d1 batch | r3 m0 d2'), R('obj_multi', 'r3 m1 d1 | r4 m1 d1')])

CHL = Lib('chain', ['chain.cc'])
CHS = 'ch_basic ch_kinds ch_coll ch_phases ch_late ch_merge ch_merge2 ch_mig ch_mig_open ch_home ch_home_open ch_move ch_move_home ch_dyn ch_dyn_home ch_hand ch_after ch_after_home'.split()
CHQ = {'ch_dyn', 'ch_dyn_home', 'ch_home_open', 'ch_mig_open', 'ch_home', 'ch_mig'}   # the longer ones
sim_check('C20', 'chains of dependent steps over the elements of a collection: collective, merged, one after the other, also after migrations, insertions and destructions', [CHL],
    [R(x, 'r3 m0 d1 batch | r3 m0 d2 batch t100') for x in CHS] + [R(x, 'r2 m1 d1 batch | r3 m1 d1 batch t60') for x in CHS] + [R(x, 'r4 m0 d0 | r4 m0 d1 batch t60') for x in CHS] + [R(x, 'r3 m2 d0 over | r3 m2 d1 over batch t60') for x in CHS if x not in CHQ] + [R('ch_held', 'r3 m0 d0 batch | r3 m0 d1 batch t120'), R('ch_held', 'r2 m1 d0 batch | r2 m1 d1 batch t120'), R('ch_held', 'r4 m2 d0 over')])
AOP = Lib('aopt', ['aop.cc'], defs=['-Dvt_feature_cmake_fcontext=1'])
_aops = ['aop_coll', 'aop_ds', 'aop_wave', 'aop_mpi', 'aop_mpi_twice', 'aop_block', 'aop_block_ds', 'aop_block_wave', 'aop_elm', 'aop_block_mpi', 'aop_nest', 'aop_nest_ds']
sim_check('C24', 'asynchronous operations: user-defined ones and MPI requests, with continuations, in epochs of every kind, and handlers, elements, objects and invocations that block on them in threads', [AOP],
    [R(x, 'r3 m0 d1 batch | r3 m0 d2 batch t100') for x in _aops] + [R(x, 'r2 m1 d1 batch | r3 m1 d1 batch t60') for x in _aops] + [R(x, 'r4 m0 d0 | r4 m0 d1 batch t60') for x in _aops] + [R(x, 'r3 m2 d0 over | r3 m2 d1 over batch t60') for x in _aops],
    'The runtime is built with its threads (fcontext) for this check.')
EVL = Lib('evt', ['evt.cc'])
sim_check('C26', 'events: normal ones, MPI requests and parents of others, with actions attached by their own and by other ranks', [EVL], [
    R('evt_ops', 'r1 m0 d0'), R('evt_ops7', 'r1 m0 d0')] + [R(x, o) for x in ('evt_mpi', 'evt_mpi_late') for o in ('r3 m0 d1 batch | r3 m0 d2', 'r2 m1 d1 batch | r2 m1 d2 batch', 'r3 m1 d1 | r4 m0 d1 batch', 'r3 m2 d0 over | r3 m2 d1 over', 'r1 m0 d0')])
LBL = Lib('lb', ['lb.cc'])
def LBR(scen, spec, name, *opt, **kw): return R(scen, spec, files=True, args=['--vt_lb', '--vt_lb_name=' + name, '--vt_lb_run_lb_first_phase'] + list(opt), **kw)
def LBX(opt): return '--vt_lb_args=' + opt
_lb = []
for _s, _n, _o in [('lb_rotate', 'RotateLB', []), ('lb_serial', 'TestSerializationLB', ['--vt_lb_self_migration']), ('lb_random', 'RandomLB', []), ('lb_greedy', 'GreedyLB', []), ('lb_hier', 'HierarchicalLB', []), ('lb_temp', 'TemperedLB', []), ('lb_tempw', 'TemperedWMin', [])]:
    _lb += [LBR(_s, sp, _n, *_o) for sp in ('r2 m0 d1 | r3 m0 d1', 'r3 m2 d0 | r2 m1 d1', 'r4 m0 d0 | r6 m0 d0', 'r5 m1 d0 batch | r7 m0 d0')]
for _s, _n, _os in [('lb_greedy', 'GreedyLB', ['strategy=pt2pt', 'strategy=bcast', 'auto=false']), ('lb_hier', 'HierarchicalLB', ['strategy=LoadOverGreaterThan', 'strategy=LoadOverOneEach', 'min=0.4']),
        ('lb_temp', 'TemperedLB', ['knowledge=Complete', 'fanout=2', 'inform=SyncInform', 'inform=SyncInform deterministic=true', 'criterion=Grapevine', 'ordering=ElmID', 'ordering=SmallObjects', 'ordering=LargestObjects', 'cmf=Original', 'iters=2 trials=2', 'rollback=false', 'targetpole=true'])]:
    _lb += [LBR(_s, 'r3 m0 d0 | r4 m0 d0', _n, LBX(o)) for o in _os]
sim_check('C17', 'load balancing (every balancer and strategy) of two collections with several load distributions', [LBL], _lb + [
    R('lb_none', 'r3 m0 d0 | r3 m0 d1', files=True), R('lb_when', 'r2 m0 d0', files=True), R('lb_off2', 'r2 m0 d0 | r3 m0 d0', files=True), R('lb_off3', 'r3 m0 d0 | r2 m0 d1', files=True), R('lb_off_id', 'r3 m0 d0 | r2 m0 d1', files=True),
])
sim_check('C18', 'phases: hooks, LB data and statistics', [LBL], [
    R('ph_hooks', 'r3 m0 d0 | r3 m0 d1', files=True), R('ph_hooks', 'r2 m0 d1 | r2 m1 d1', files=True), R('ph_hooks', 'r4 m2 d0 batch', files=True), R('ph_rec', 'r2 m0 d1 | r3 m0 d1', files=True), R('ph_rec', 'r3 m1 d0', files=True), LBR('ph_rec_rot', 'r3 m0 d0 | r3 m0 d1', 'RotateLB'), LBR('ph_rec_rot', 'r2 m0 d1 | r2 m1 d1', 'RotateLB'), LBR('ph_rec_rot', 'r4 m2 d0', 'RotateLB'),
    R('ph_stats', 'r3 m0 d0 | r2 m0 d1', files=True), R('ph_stats_grd', 'r3 m0 d0 | r2 m0 d1', files=True), R('ph_stats_none', 'r2 m0 d0', files=True),
])

RD = Lib('rdma', ['rdma.cc'])
sim_check('C14', 'one-sided operations on the memory of ranks; each operation is a scheduling point and takes effect as late as MPI allows', [RD], [
    R('rd_int', 'r2 m0 d0 points lazy | r2 m0 d1 points lazy'), R('rd_int', 'r3 m0 d0 | r3 m0 d1 points lazy'), R('rd_int', 'r2 m1 d0 points | r2 m1 d1 points'), R('rd_double', 'r2 m0 d1 points | r3 m0 d1 points lazy'), R('rd_short', 'r2 m0 d1 points lazy | r3 m0 d1 points lazy'), R('rd_u64', 'r3 m0 d1 points lazy | r2 m0 d2 points lazy'), R('rd_u64', 'r4 m2 d0'), R('rd_long', 'r2 m0 d1 points lazy | r2 m0 d2 points'),
    R('rd_excl', 'r2 m0 d2 points lazy | r3 m0 d2 points lazy'), R('rd_excl', 'r3 m0 d1 points lazy | r3 m1 d2 points lazy'), R('rd_action', 'r2 m0 d1 points lazy | r3 m0 d1 points lazy'), R('rd_count', 'r2 m0 d1 points lazy | r3 m0 d1 points lazy'), R('rd_count', 'r3 m1 d0 batch | r3 m1 d1'), R('rd_count', 'r4 m2 d0'), R('rd_many', 'r3 m0 d1 | r3 m0 d1 points lazy'), R('rd_many', 'r3 m1 d0 batch | r3 m1 d1'), R('rd_many', 'r4 m2 d0 over'), R('rd_fence', 'r2 m0 d1 points lazy | r3 m0 d1 points lazy')],
    'One-sided operations are applied by a model of MPI windows that checks epochs, locks, bounds and lifetimes.')
def LBRot(s, spec): return LBR(s, spec, 'RotateLB')
sim_check('C15', 'one-sided access by index: sets of handles of a rank and memory of collection elements that move at the end of a phase', [RD], [
    R('rs_excl', 'r2 m0 d2 points lazy | r3 m0 d2 points lazy'), R('rs_dense', 'r2 m0 d1 points lazy | r3 m0 d1 points lazy'), R('rs_dense', 'r3 m1 d0 | r3 m1 d1'), R('rs_dense', 'r4 m2 d0 lazy'), R('rs_sparse', 'r3 m0 d1 points lazy | r2 m0 d2 points lazy'), R('rs_sparse', 'r3 m2 d0 batch | r3 m1 d1'),
    LBRot('rc_stay', 'r2 m0 d1 points lazy | r3 m0 d1'), LBRot('rc_stay', 'r3 m1 d0 | r2 m1 d1'), LBRot('rc_rot', 'r3 m0 d0 | r2 m0 d1 points lazy'), LBRot('rc_rot', 'r4 m2 d0 lazy | r3 m0 d1'), LBRot('rc_two', 'r3 m1 d0 | r3 m0 d1'), LBRot('rc_few', 'r2 m0 d1 points lazy | r2 m1 d1'), LBRot('rc_few', 'r5 m0 d0 | r3 m0 d1'), LBRot('rc_destroy', 'r2 m0 d1 | r3 m0 d1'), LBRot('rc_destroy', 'r3 m2 d0 | r2 m1 d1'), LBRot('rc_empty', 'r3 m2 d0 | r3 m0 d1'), LBR('rc_two', 'r3 m0 d0 | r2 m0 d1', 'GreedyLB'),
    R('rc_conc', 'r3 m2 d0 | r3 m2 d0'), R('rc_conc_empty', 'r3 m2 d0 | r3 m2 d0'), LBRot('rc_conc', 'r3 m1 d0 | r3 m1 d0'), LBRot('rc_conc_empty', 'r3 m1 d0 | r3 m1 d0'), R('rc_gone', 'r3 m2 d0 | r3 m2 d0')],
    'One-sided operations are applied by a model of MPI windows that checks epochs, locks, bounds and lifetimes.')
for _r in CHECKS['C15'].runs:
    if _r.scenario.startswith('rc_'): _r.files = True

SCH = Lib('sched', ['sched.cc'])
_han1, _han3, _sec, _num = ['--vt_sched_progress_han=1'], ['--vt_sched_progress_han=3'], ['--vt_sched_progress_sec=0.1'], ['--vt_sched_num_progress=3']
sim_check('C16', 'the scheduler: every sequence of queueing and running, waiting messages of several priorities, triggers, nested scheduler loops, every way to limit the progress calls', [SCH], [
    R('sched_units', 'r1 m0 d0'), R('sched_prio', 'r1 m0 d0'), R('sched_msgs', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('sched_msgs', 'r3 m1 d1 batch | r4 m2 d1 batch over'), R('sched_trig', 'r3 m0 d1 batch | r3 m0 d2 batch'), R('sched_trig1', 'r1 m0 d0 end | r1 m1 d0'), R('sched_trig', 'r2 m1 d1 | r2 m2 d2'),
    R('sched_nested', 'r3 m0 d1 batch | r3 m0 d2 batch t200'), R('sched_nested', 'r2 m1 d1 | r3 m1 d1'), R('sched_nest1', 'r4 m1 d0 batch | r4 m0 d1')] +
    [R(s, sp, args=a) for a in (_han1, _han3, _sec, _num) for s, sp in (('sched_msgs', 'r3 m0 d1 batch | r3 m0 d2 batch'), ('sched_trig', 'r2 m1 d1 | r3 m0 d1'), ('sched_nested', 'r3 m0 d1 batch | r2 m1 d2 batch'))])

LBD = Lib('lbd', ['lbd.cc'])
def LBF(scen, spec, *opt): return R(scen, spec, files=True, args=['--vt_lb_data', '--vt_lb_data_dir=d', '--vt_lb_data_file=f%p.json'] + list(opt))
_rot = ['--vt_lb', '--vt_lb_name=RotateLB', '--vt_lb_run_lb_first_phase']
_spec = ['--vt_lb_spec', '--vt_lb_spec_file=spec.txt']
sim_check('C40', 'files of load balancing data: every kind of content written and read back, and the files of runs compared with what was done', [LBD], [
    R('lbd_round', 'r1 m0 d0', files=True), LBF('lbd_run', 'r3 m0 d0 | r2 m0 d1 batch'), LBF('lbd_run', 'r3 m1 d0 | r2 m1 d1 batch', '--vt_lb_data_compress=false'), LBF('lbd_run', 'r3 m0 d0 | r2 m0 d1 batch', *_rot), LBF('lbd_run', 'r4 m2 d0 | r5 m1 d0', '--vt_lb_data_compress=false', *_rot)] +
    [LBF('lbd_spec%d' % i, 'r2 m0 d0 | r2 m0 d1 batch', *_spec) for i in (1, 2, 3, 4)])
sim_check('C60', 'replay of recorded loads: every placement of three loads and their objects on the ranks, and whole replays of up to four phases', [LBD], [
    R('rp_move', 'r2 m0 d0 | r2 m0 d1 batch', files=True), R('rp_move', 'r3 m0 d0 batch | r3 m1 d0', files=True)] +
    [R(s, sp, files=True, args=_rot) for s in ('rp_one', 'rp_two', 'rp_three', 'rp_mod', 'rp_mod2', 'rp_from1', 'rp_from3') for sp in ('r2 m0 d0 | r2 m0 d1 batch', 'r3 m1 d0 | r4 m0 d0')] +
    [R(s, 'r3 m0 d0 | r3 m0 d1 batch', files=True, args=_rot + ['--vt_lb_interval=%d' % i]) for s in ('rp_four', 'rp_mod2', 'rp_from1', 'rp_from3') for i in (2, 3)])

LM = Lib('lmodel', ['lmodel.cc'])
def LML(scen, spec, name='RotateLB', *opt): return LBR(scen, spec, name, *opt)
sim_check('C47', 'load models: every stack of models asked about small histories and compared with an evaluation of their definitions, and models in use with load balancing', [LM], [
    R('lm_1', 'r1 m0 d0'), R('lm_2', 'r1 m0 d0'), R('lm_percol', 'r1 m0 d0'), R('lm_prop', 'r1 m0 d0'), R('lm_3', 'r1 m0 d0')] +
    [LML('lm_l%d' % i, 'r2 m0 d1 batch | r3 m0 d1 batch') for i in range(10)] + [LML('lm_focus', 'r2 m0 d1 batch | r3 m0 d1 batch'), LML('lm_late', 'r2 m0 d0 | r2 m0 d0')] +
    [LML('lm_l%d' % i, 'r3 m0 d0 batch | r2 m0 d1 batch', 'TemperedWMin', LBX('beta=1')) for i in (0, 6, 9)] + [LML('lm_l%d' % i, 'r3 m1 d0 | r2 m1 d1 batch', 'GreedyLB') for i in (2, 5, 8)])
