"""Failing calls next to healthy ones.

A hostile call takes an expression or a model outside what it is made for: parameters out of range,
unknown names, columns of the wrong type, no rows, only nulls, NaN and infinity, constants, huge values,
requests for far more memory than there is.  It may give a value or raise; it may not take the process
down, hang, leak a Rust panic out of a model, do one thing now and another then, or leave the object it was
called on changed when it raised.  Calls listed in MUST have to raise.  The healthy operations around it come
from the other families and are judged there by their reference models.
"""
import math
import random
import threading
import warnings

import numpy as np
import polars as pl
import polars_ds as pds
from polars_ds.exprs import expr_iter as pi
from polars_ds.exprs import expr_knn as pk
from polars_ds.exprs import expr_linear as pl_
from polars_ds.exprs import metrics as pm
from polars_ds.exprs import num as pn
from polars_ds.exprs import stats as pst
from polars_ds.exprs import string as ps
from polars_ds.exprs import ts_features as pt
from polars_ds.linear_models import LR, ElasticNet, OnlineLR
from polars_ds.modeling.pipeline import Blueprint
from polars_ds.spatial import KDTree

from common import OPS, Exc, ExprOp, Op, brief, op
from fam.context import FRESH, SCH, SIGNLESS, frame, plain, unlike, unsigned

INTS = [0, -1, 1, 2, 1 << 31, 1 << 40, (1 << 63) - 1, 1 << 64]
FEW = [0, -1, 1, 2, 37]
SMALLI = [0, -1, 1000, 1 << 31, 1 << 40, 1 << 64]
FLT = [0.0, -1.0, float("nan"), float("inf"), -float("inf"), 1e308, 1e-320, 2.5]
STR = ["", "nope", "L2", "qr "]
T = {}  # name -> (hostile values, expression from one of them)


def add(n, vals, f):
    T[n] = (vals, f)


I = pl.int_range(pl.len(), dtype=pl.UInt32)
F = ["u", "w", "pr"]
I=pl.int_range(pl.len(),dtype=pl.UInt32)
F=['u','w','pr']
add('dist_kth.k',INTS,lambda v:pk.query_dist_from_kth_nb(*F,k=v))
add('dist_kth.par.k',INTS,lambda v:pk.query_dist_from_kth_nb(*F,k=v,parallel=True))
add('dist_kth.eps',FLT,lambda v:pk.query_dist_from_kth_nb(*F,k=2,epsilon=v))
add('dist_kth.max',FLT,lambda v:pk.query_dist_from_kth_nb(*F,k=2,max_bound=v))
add('dist_kth.dist',STR,lambda v:pk.query_dist_from_kth_nb(*F,k=2,dist=v))
add('knn_pt.k',INTS,lambda v:pk.query_knn_ptwise(*F,index=I,k=v))
add('knn_pt.rd.k',INTS,lambda v:pk.query_knn_ptwise(*F,index=I,k=v,return_dist=True))
add('knn_pt.dist',STR,lambda v:pk.query_knn_ptwise(*F,index=I,k=2,dist=v))
add('knn_pt.index',['x','s','b','lf','missing'],lambda v:pk.query_knn_ptwise(*F,index=v,k=2))
add('knn_pt.feat',['s','b','lf','missing','x'],lambda v:pk.query_knn_ptwise('u',v,index=I,k=2))
add('knn_pt.eval',['s','b','x'],lambda v:pk.query_knn_ptwise('u','w',index=I,k=2,eval_mask=pl.col(v)))
add('knn_pt.data',['s','b','x'],lambda v:pk.query_knn_ptwise('u','w',index=I,k=2,data_mask=pl.col(v)))
add('knn_pt.nofeat',[0],lambda v:pk.query_knn_ptwise(index=I,k=2))
add('knn_freq.k',INTS,lambda v:pk.query_knn_freq_cnt(*F,index=I,k=v))
add('knn_avg.k',INTS,lambda v:pk.query_knn_avg(*F,target=pl.col('w'),k=v))
add('knn_avg.minb',FLT,lambda v:pk.query_knn_avg(*F,target=pl.col('w'),k=2,min_bound=v,weighted=True))
add('knn_avg.maxb',FLT,lambda v:pk.query_knn_avg(*F,target=pl.col('w'),k=2,max_bound=v))
add('knn_avg.target',['s','b','lf','x'],lambda v:pk.query_knn_avg(*F,target=pl.col(v),k=2))
add('within_from.r',FLT,lambda v:pk.within_dist_from(*F,pt=[0.,1.,2.],r=v))
add('within_from.pt',[[],[1.0],[1.,2.,3.,4.]],lambda v:pk.within_dist_from(*F,pt=v,r=1.0))
add('is_knn.k',INTS,lambda v:pk.is_knn_from(*F,pt=[0.,1.,2.],k=v))
add('is_knn.pt',[[],[1.0],[1.,2.,3.,4.]],lambda v:pk.is_knn_from(*F,pt=v,k=1))
add('radius.r',FLT,lambda v:pk.query_radius_ptwise(*F,index=I,r=v))
add('radius.dist',STR,lambda v:pk.query_radius_ptwise(*F,index=I,r=1.0,dist=v))
add('radius_freq.r',FLT,lambda v:pk.query_radius_freq_cnt(*F,index=I,r=v))
add('radius_freq.rcol',['s','b','x','lf'],lambda v:pk.query_radius_freq_cnt(*F,index=I,r=pl.col(v)))
add('nb_cnt.r',FLT,lambda v:pk.query_nb_cnt(*F,r=v))
add('nb_cnt.rcol',['s','b','x','lf'],lambda v:pk.query_nb_cnt(*F,r=pl.col(v)))
add('nb_cnt.dist',STR,lambda v:pk.query_nb_cnt(*F,r=1.0,dist=v))
for nm,kw in (('pred',dict(return_pred=True)),('coef',{})):
  add('lr.l1.'+nm,FLT,lambda v,kw=kw:pl_.lin_reg(*F,target='u',l1_reg=v,**kw))
  add('lr.l2.'+nm,FLT,lambda v,kw=kw:pl_.lin_reg(*F,target='u',l2_reg=v,**kw))
  add('lr.solver.'+nm,STR,lambda v,kw=kw:pl_.lin_reg('w','pr',target='u',solver=v,**kw))
  add('lr.np.'+nm,STR+['zero','one','skip','raise','ignore','3.5','nan','skip_window'],lambda v,kw=kw:pl_.lin_reg('x','pr',target='y',null_policy=v,**kw))
  add('lr.tol.'+nm,FLT,lambda v,kw=kw:pl_.lin_reg('w','pr',target='u',l1_reg=0.1,tol=v,**kw))
  add('lr.weights.'+nm,['x','s','b','u','lf'],lambda v,kw=kw:pl_.lin_reg('w','pr',target='u',weights=v,**kw))
  add('lr.x.'+nm,['x','s','b','i','lf','u'],lambda v,kw=kw:pl_.lin_reg(v,'pr',target='u',**kw))
  add('lr.t.'+nm,['x','s','b','i','lf'],lambda v,kw=kw:pl_.lin_reg('u','pr',target=v,**kw))
  add('lr.multi.'+nm,['x','u','i'],lambda v,kw=kw:pl_.lin_reg('w','pr',target=['u',v],**kw))
  add('slr.x.'+nm,['x','s','b','i','lf'],lambda v,kw=kw:pl_.simple_lin_reg(v,target='u',**kw))
add('lr.many.coef',[1,5,40,200],lambda v:pl_.lin_reg(*[pl.col('u')**i for i in range(v)],target='w'))
add('rcond',FLT,lambda v:pl_.lin_reg_w_rcond('w','pr',target='u',rcond=v))
add('rcond.l2',FLT,lambda v:pl_.lin_reg_w_rcond('w','pr',target='u',l2_reg=v))
add('recur.start',INTS,lambda v:pl_.recursive_lin_reg('w','pr',target='u',start_with=v))
add('recur.l2',FLT,lambda v:pl_.recursive_lin_reg('w','pr',target='u',start_with=4,l2_reg=v))
add('recur.np',STR+['zero','skip','one'],lambda v:pl_.recursive_lin_reg('x','pr',target='y',start_with=4,null_policy=v))
add('rolling.w',INTS,lambda v:pl_.rolling_lin_reg('w','pr',target='u',window_size=v))
add('rolling.w.skip',INTS,lambda v:pl_.rolling_lin_reg('x','pr',target='u',window_size=v,null_policy='skip'))
add('rolling.mvr',INTS,lambda v:pl_.rolling_lin_reg('x','pr',target='u',window_size=5,min_valid_rows=v,null_policy='skip'))
add('rolling.l2',FLT,lambda v:pl_.rolling_lin_reg('w','pr',target='u',window_size=5,l2_reg=v))
add('report.np',STR+['zero','skip','one','raise'],lambda v:pl_.lin_reg_report('x','pr',target='y',null_policy=v))
add('report.se',STR+['hc0','hc1','hc2','hc3'],lambda v:pl_.lin_reg_report('w','pr',target='u',std_err=v))
add('report.w',['x','s','u','w'],lambda v:pl_.lin_reg_report('w','pr',target='u',weights=v))
add('r2',['x','s','lf','b'],lambda v:pm.query_r2('u',v))
add('adj_r2',INTS,lambda v:pm.query_adj_r2('u','w',p=v))
add('hubor',FLT,lambda v:pm.query_hubor_loss('u','w',delta=v))
add('log_loss',['x','s','b','pr','u'],lambda v:pm.query_log_loss('b',v))
add('roc.p',['x','s','b','lf','u'],lambda v:pm.query_roc_auc('b',v))
add('roc.a',['x','s','i','lf','c2'],lambda v:pm.query_roc_auc(v,'pr'))
add('tpr_fpr',['x','s','i','lf','c2'],lambda v:pm.query_tpr_fpr(v,'pr'))
add('cm.t',FLT,lambda v:pm.query_confusion_matrix('c2','pr',threshold=v,all_metrics=True))
add('cm.a',['x','s','i','b','c2','lf'],lambda v:pm.query_confusion_matrix(v,'pr',all_metrics=True))
add('bm',['x','s','i','b','c2','lf'],lambda v:pm.query_binary_metrics(v,'pr'))
add('mroc.n',FEW,lambda v:pm.query_multi_roc_auc('i','lf',n_classes=v))
add('mroc.s',STR,lambda v:pm.query_multi_roc_auc('c2','lf',n_classes=2,strategy=v))
add('cce',['x','s','la','lf'],lambda v:pm.query_cat_cross_entropy('c2',v))
add('mcc',['x','s','i','b','c2','lf'],lambda v:pm.query_mcc(v,'c2'))
add('mase',FEW,lambda v:pm.query_mase('u','w','pr',freq=v))
add('gcd',[0,-1,-(1<<63),(1<<63)-1],lambda v:pn.gcd('i',v))
add('lcm',[0,-1,-(1<<63),(1<<63)-1],lambda v:pn.lcm('i',v))
add('lcm.c',[0,-1,(1<<62)+1,(1<<63)-1],lambda v:pn.lcm(pl.col('j')+v//4,pl.col('j')+v//2))
add('hav',FLT,lambda v:pn.haversine('lat','lon',v,10.0))
add('sv',[['x'],['s'],['u','u'],['b','u'],['lf','u'],['lf']],lambda v:pn.singular_values(*v))
add('pca',[['x'],['s'],['u','u'],['b','u'],['lf','u'],['lf']],lambda v:pn.pca(*v))
add('pc.k',INTS,lambda v:pn.principal_components('u','w','pr',k=v))
add('jac.row',['la','lf','s','x'],lambda v:pn.jaccard_row('la',v))
add('jac.col',['la','lf','s','x','b','i'],lambda v:pn.jaccard_col('i',v))
add('psi.n',FEW,lambda v:pn.psi('u','w',n_bins=v))
add('psi.b',[[],[1.0],[float('nan')],[2.,1.],[1.,1.,1.]],lambda v:pn.psi_w_breakpoints('u','w',v))
add('psi.c',['x','s','b','i'],lambda v:pn.psi(v,'w'))
add('psid',['x','s','b','i','lf'],lambda v:pn.psi_discrete(v,'g'))
add('woe.n',FEW,lambda v:pn.woe('u','c2',n_bins=v))
add('woe.t',['x','s','b','i','lf'],lambda v:pn.woe('u',v))
add('iv.n',FEW,lambda v:pn.info_value('u','c2',n_bins=v))
add('woed',['x','s','b','i','lf'],lambda v:pn.woe_discrete(v,'c2'))
add('trapz',FLT,lambda v:pn.integrate_trapz('u',v))
add('trapz.x',['x','s','b','i','lf'],lambda v:pn.integrate_trapz('u',v))
for m in ('direct','fft','nope'):
  for mode in ('full','same','valid','left','right','nope'):
    add(f'conv.{m}.{mode}',[[],[1.0],[1.]*5,[float('nan'),1.0],[1.]*500],lambda v,m=m,mode=mode:pn.convolve('u',v,method=m,mode=mode))
    add(f'conv.par.{m}.{mode}',[[],[1.0],[1.]*5,[1.]*500],lambda v,m=m,mode=mode:pn.convolve('u',v,method=m,mode=mode,parallel=True))
add('conv.fill',FLT,lambda v:pn.convolve('x',[1.,2.],fill_value=v))
for f in ('gamma','expit','logit','exp2','fract','trunc','sinc','next_up','next_down','digamma'):
  add(f,['s','b','i','x','lf','c2'],lambda v,f=f:getattr(pn,f)(v))
add('gamma.big',FLT,lambda v:pn.gamma(pl.col('u')*0+v))
add('digamma.big',FLT,lambda v:pn.digamma(pl.col('u')*0+v))
add('xlogy',FLT,lambda v:pn.xlogy('u',pl.col('u')*0+v))
add('detrend',STR,lambda v:pn.detrend('u',v))
add('detrend.c',['s','b','i','x','lf'],lambda v:pn.detrend(v))
add('rfft.n',FEW,lambda v:pn.rfft('u',n=v))
add('rfft.c',['s','b','i','x','lf'],lambda v:pn.rfft(v))
add('te.min',FEW,lambda v:pn.target_encode('g','c2',min_samples_leaf=v))
add('te.sm',FLT,lambda v:pn.target_encode('g','c2',smoothing=v))
add('te.t',['x','s','b','i','lf','u'],lambda v:pn.target_encode('g',v))
add('te.s',['x','s','b','i','lf','u'],lambda v:pn.target_encode(v,'c2'))
add('iso.w',['x','s','b','i','lf','u'],lambda v:pn.isotonic_regression('w',weights=v))
add('iso.y',['x','s','b','i','lf','u'],lambda v:pn.isotonic_regression(v))
for f in ('ttest_ind','ks_2samp','mann_whitney_u','weighted_mean','weighted_gmean','weighted_hmean','weighted_var','kendall_tau','bicor','xi_corr','cosine_sim','weighted_corr3','corr'):
  if f=='weighted_corr3': add(f,['x','s','b','i','lf'],lambda v:pst.weighted_corr('u','w',v)); continue
  add(f,['x','s','b','i','lf','g'],lambda v,f=f:getattr(pst,f)('u',v))
  add(f+'.1',['x','s','b','i','lf','g'],lambda v,f=f:getattr(pst,f)(v,'u'))
add('ttest.alt',STR,lambda v:pst.ttest_ind('u','w',alternative=v))
add('ttest1',FLT,lambda v:pst.ttest_1samp('u',v))
add('ttest1.alt',STR,lambda v:pst.ttest_1samp('u',0.0,alternative=v))
add('ttests.v',FLT,lambda v:pst.ttest_ind_from_stats('u',0.1,v,10))
add('ttests.c',INTS,lambda v:pst.ttest_ind_from_stats('u',0.1,1.0,v))
add('ks.a',FLT,lambda v:pst.ks_2samp('u','w',alpha=v))
add('ks.b',['c2','b','i','s'],lambda v:pst.ks_2samp('u',v,is_binary=True))
add('f.g',['g','s','x','lf','b'],lambda v:pst.f_test('u',group=v))
add('chi2',['g','s','x','lf','b'],lambda v:pst.chi2('g',v))
add('mw.alt',STR,lambda v:pst.mann_whitney_u('u','w',alternative=v))
add('wins',FLT,lambda v:pst.winsorize('u',v,0.9))
add('wins.m',STR,lambda v:pst.winsorize('u',0.1,0.9,method=v))
add('pert',FLT,lambda v:pst.perturb('u',epsilon=v,seed=1))
add('jit',FLT,lambda v:pst.jitter('u',std=v,seed=1))
add('noise',STR,lambda v:pst.add_noise('u',v))
add('normal',['s','b','i','x','lf'],lambda v:pst.normal_test(v))
add('rnd.lo',FLT,lambda v:pst.random(v,1.0,seed=1))
add('rnd.hi',FLT,lambda v:pst.random(0.0,v,seed=1))
add('rnd.seed',[-1,1<<64,1<<63,'a'],lambda v:pst.random(0.0,1.0,seed=v))
add('rnd.len',[0,-1,1000,1<<45],lambda v:pst.random(0.0,1.0,seed=1,length=v))
add('rint.hi',[0,-1,1<<31,1<<63,1<<64],lambda v:pst.random_int(0,v,seed=1))
add('rint.lo',[0,-1,5,7,1<<63],lambda v:pst.random_int(v,5,seed=1))
add('rnull',FLT,lambda v:pst.random_null('u',v,seed=1))
add('rstr.lo',[0,-1,5,1<<40],lambda v:pst.random_str(v,3,seed=1))
add('rstr.hi',[0,-1,5,200],lambda v:pst.random_str(1,v,seed=1))
add('rbin.n',[0,-1,1<<40,1<<64],lambda v:pst.random_binomial(v,0.5,seed=1))
add('rbin.p',FLT,lambda v:pst.random_binomial(5,v,seed=1))
add('rexp',FLT,lambda v:pst.random_exp(v,seed=1))
add('rnorm.s',FLT,lambda v:pst.random_normal(0.0,v,seed=1))
add('rnorm.m',FLT,lambda v:pst.random_normal(v,1.0,seed=1))
add('bicor.c',FLT,lambda v:pst.bicor('u','w',v))
add('corr.m',STR,lambda v:pst.corr('u','w',method=v))
for f in ('is_stopword','to_camel_case','to_snake_case','to_pascal_case','to_constant_case','str_snowball','str_tokenize','extract_numbers','replace_non_ascii','remove_diacritics','normalize_whitespace'):
  add(f,['x','b','i','lf','s'],lambda v,f=f:getattr(ps,f)(v))
for f in ('str_jaccard','str_overlap_coeff','str_sorensen_dice'):
  add(f,INTS,lambda v,f=f:getattr(ps,f)('t','g',substr_size=v))
add('tversky.k',INTS,lambda v:ps.str_tversky_sim('t','g',0.5,0.5,substr_size=v))
add('tversky.a',FLT,lambda v:ps.str_tversky_sim('t','g',v,0.5))
for f in ('str_hamming','str_jaro','str_jw','str_d_leven','str_leven','str_lcs_seq','str_osa','str_fuzz'):
  add(f,['x','b','i','lf','s','g'],lambda v,f=f:getattr(ps,f)('t',v))
  add(f+'.p',['x','b','i','lf','s','g'],lambda v,f=f:getattr(ps,f)('t',v,parallel=True))
add('jw.w',FLT,lambda v:ps.str_jw('t','g',weight=v))
add('fl.b',INTS,lambda v:ps.filter_by_levenshtein('t','g',bound=v))
add('fh.b',INTS,lambda v:ps.filter_by_hamming('t','g',bound=v))
add('near.t',INTS,lambda v:ps.str_nearest('t','cat',threshold=v))
add('near.m',STR,lambda v:ps.str_nearest('t','cat',metric=v))
add('vocab',[[],[''],['a','b']],lambda v:ps.similar_to_vocab('t',v,0.5))
add('vocab.t',FLT,lambda v:ps.similar_to_vocab('t',['cat'],v))
add('vocab.m',STR,lambda v:ps.similar_to_vocab('t',['cat'],.5,metric=v))
add('vocab.s',STR,lambda v:ps.similar_to_vocab('t',['cat'],.5,strategy=v))
add('tok.pat',['(','[a-','*','','\\b','(?<=a)b'],lambda v:ps.str_tokenize('t',pattern=v))
add('tok.stem',['x','b','s'],lambda v:ps.str_tokenize(v,stem=True))
add('norm.form',STR,lambda v:ps.normalize_string('t',v))
add('mapw',[{},{'':'a'},{'a':''}],lambda v:ps.map_words('t',v))
add('numax',INTS,lambda v:pt.query_mean_n_abs_max('u',v))
add('cv',FEW,lambda v:pt.query_cv('u',v))
add('c3',INTS,lambda v:pt.query_c3_stats('u',v))
add('tra',INTS,lambda v:pt.query_time_reversal_asymmetry_stats('u',v))
add('acorr',INTS,lambda v:pt.query_auto_corr('u',v))
add('ar',FEW,lambda v:pt.query_ar_coeffs('u',lag=v))
add('sc.t',FLT,lambda v:pt.query_similar_count([1.,2.,3.],'u',v))
add('sc.q',[[],[1.0],[1.]*200,[float('nan')]*3],lambda v:pt.query_similar_count(v,'u',1.0))
add('sc.m',STR,lambda v:pt.query_similar_count([1.,2.],'u',1.0,metric=v))
add('sc.qp',[[],[1.0],[1.]*200],lambda v:pt.query_similar_count(v,'u',1.0,parallel=True,metric='sql2'))
add('lz',['x','s','b','i','lf'],lambda v:pt.query_lempel_ziv(v))
add('cid',['x','s','b','i','lf'],lambda v:pt.query_cid_ce(v,normalize=True))
add('ent',FLT,lambda v:pt.query_entropy('u',base=v))
add('cent',['x','s','b','i','lf'],lambda v:pt.query_cond_entropy('g',v))
add('se.m',FEW,lambda v:pt.query_sample_entropy('u',m=v))
add('se.mp',FEW,lambda v:pt.query_sample_entropy('u',m=v,parallel=True))
add('se.r',FLT,lambda v:pt.query_sample_entropy('u',ratio=v))
add('ae.m',FEW,lambda v:pt.query_approx_entropy('u',m=v,filtering_level=0.2))
add('ae.r',FLT,lambda v:pt.query_approx_entropy('u',m=2,filtering_level=v))
add('ke.k',INTS,lambda v:pt.query_knn_entropy('u','w',k=v))
add('ke.kp',INTS,lambda v:pt.query_knn_entropy('u','w',k=v,parallel=True))
add('ke.d',STR,lambda v:pt.query_knn_entropy('u','w',k=2,dist=v))
add('ce.k',INTS,lambda v:pt.query_copula_entropy('u','w',k=v))
add('ci.k',INTS,lambda v:pt.query_cond_indep('u','w','pr',k=v))
add('tre.k',INTS,lambda v:pt.query_transfer_entropy('u','w',k=v))
add('tre.lag',INTS,lambda v:pt.query_transfer_entropy('u','w',lag=v))
add('pe.tau',INTS,lambda v:pt.query_permute_entropy('u',tau=v))
add('pe.n',FEW,lambda v:pt.query_permute_entropy('u',n_dims=v))
add('pe.b',FLT,lambda v:pt.query_permute_entropy('u',base=v))
add('comb.k',[0,1,2,3,100,-1,1<<40,1<<64],lambda v:pi.combinations('j',v))
add('comb.c',['x','s','b','lf'],lambda v:pi.combinations(v,2))
add('prod.c',['x','s','b','lf'],lambda v:pi.product('j',v))
add('range',FLT,lambda v:pt.query_range_count('u',v,1.0))
add('streak',['x','s','b','lf','i'],lambda v:pt.query_longest_streak(pl.col(v)))
add('cnt',['x','s','b','lf','i'],lambda v:pt.query_count_uniques(v))
add('first_digit',['x','s','b','lf','i'],lambda v:pt.query_first_digit_cnt(v))
add('list_amax',['x','s','b','la','lf'],lambda v:pn.list_amax(v))

# what has to be refused: the library's own checks, over data on which nothing else is wrong
_N = ["", "nope", "qr "]
MUST = {
    "dist_kth.dist": _N, "knn_pt.k": [0, -1], "knn_pt.rd.k": [0, -1], "knn_pt.dist": _N, "knn_freq.k": [0, -1], "knn_avg.k": [0, -1], "within_from.pt": "*", "is_knn.pt": "*",
    "radius.r": [0.0, -1.0, -math.inf], "radius_freq.r": [0.0, -1.0, -math.inf], "radius.dist": _N, "nb_cnt.dist": STR, "knn_pt.feat": ["lf", "missing"], "nb_cnt.rcol": ["s", "b", "lf"],
    "lr.np.pred": STR + ["raise"], "lr.np.coef": STR + ["raise"], "recur.np": STR, "report.np": STR + ["raise"], "lr.x.coef": ["lf"], "lr.x.pred": ["lf"], "lr.t.coef": ["lf"], "lr.multi.coef": ["x", "i"],
    "recur.start": [0, -1], "rolling.w": [0, -1, 1], "rolling.w.skip": [0, -1, 1], "rolling.mvr": [-1, 1 << 64], "roc.p": ["x", "s", "b", "lf"], "roc.a": ["s", "lf"], "tpr_fpr": ["s", "lf"],
    "mroc.s": STR, "mase": [0, -1], "pc.k": [0, -1, 1 << 31], "jac.row": ["lf", "s", "x"], "jac.col": ["la", "lf"], "psi.n": [0, -1], "psi.b": [[]], "detrend": STR, "rfft.n": [0, -1, 1], "rfft.c": ["i", "x", "lf"],
    "te.t": ["s", "lf"], "iso.w": ["x", "i", "b", "lf"], "iso.y": ["x", "i", "s", "lf"], "wins": [0.0, -1.0, 2.5], "wins.m": STR, "pert": [math.nan, math.inf, -math.inf], "jit": [-1.0, -math.inf, math.nan, math.inf],
    "noise": STR, "rint.hi": [0], "rint.lo": [5], "rnull": [0.0, -1.0, 2.5], "rbin.n": [0, -1], "rbin.p": [-1.0, math.nan, 2.5], "rexp": [-1.0, math.nan], "corr.m": STR, "tversky.a": [-1.0, -math.inf],
    "near.t": [0, -1], "near.m": STR, "vocab.m": STR, "vocab.s": STR, "norm.form": STR, "numax": [0, -1], "ar": [0, -1], "sc.q": [[], [1.0], [1.0] * 200], "sc.qp": [[], [1.0], [1.0] * 200], "sc.m": STR, "lz": ["x", "s", "i", "lf"],
    "se.m": [0, -1, 1], "se.mp": [0, -1, 1], "ae.m": [0, -1, 1], "ae.r": [0.0, -1.0], "ke.k": [0, -1], "ke.kp": [0, -1], "ke.d": STR, "ce.k": [0, -1], "ci.k": [0, -1], "tre.k": [0, -1], "tre.lag": [0, -1],
    "pe.tau": [0, -1], "pe.n": [0, -1, 1], "comb.k": [100, -1, 1 << 40], "comb.c": ["b", "lf"], "prod.c": ["x", "s", "b", "lf"], "first_digit": ["s", "b", "lf"], "ks.a": [],
}
for _f in ("gamma", "expit", "logit", "exp2", "fract", "trunc", "next_up", "next_down", "digamma"):
    MUST[_f] = ["s", "b", "lf"]
for _f in ("str_hamming", "str_jaro", "str_jw", "str_d_leven", "str_leven", "str_lcs_seq", "str_osa", "str_fuzz", "is_stopword", "to_camel_case", "to_snake_case", "to_pascal_case", "to_constant_case", "str_snowball"):
    MUST[_f] = ["x", "b", "i", "lf"]
    MUST[_f + ".p"] = ["x", "b", "i", "lf"]
for _m in ("direct", "fft"):
    for _o in ("full", "same", "valid", "left", "right"):
        MUST[f"conv.{_m}.{_o}"] = [[], [1.0], [1.0] * 500]
        MUST[f"conv.par.{_m}.{_o}"] = [[], [1.0], [1.0] * 500]
        MUST[f"conv.nope.{_o}"] = MUST[f"conv.par.nope.{_o}"] = "*"
    MUST[f"conv.{_m}.nope"] = MUST[f"conv.par.{_m}.nope"] = "*"

MUST = {k: v for k, v in MUST.items() if k in T}

UNSEEDED = ("noise",)
DATA = ["fine", "fine", "fine", "empty", "one", "two", "allnull", "nan", "allnan", "inf", "const", "huge", "tiny"]


def spoil(df, how):
    fl = [c for c in df.columns if df.schema[c] == pl.Float64]
    at = lambda v: [pl.when(pl.int_range(pl.len()) == pl.len() // 2).then(pl.lit(v)).otherwise(pl.col(c)).alias(c) for c in fl]
    if how in ("fine", "one", "two"):
        return df
    if how == "empty":
        return df.clear()
    if how == "allnull":
        return df.with_columns(pl.lit(None).cast(df.schema[c]).alias(c) for c in df.columns)
    if how == "nan":
        return df.with_columns(at(math.nan))
    if how == "inf":
        return df.with_columns(at(math.inf))
    if how == "allnan":
        return df.with_columns(pl.lit(math.nan).alias(c) for c in fl)
    if how == "const":
        return df.with_columns(pl.col(c).first().alias(c) for c in df.columns)
    if how == "huge":
        return df.with_columns((pl.col(c) * 1e300).alias(c) for c in fl)
    if how == "tiny":
        return df.with_columns((pl.col(c) * 1e-300).alias(c) for c in fl)
    raise ValueError(how)


def outcome(f):
    try:
        return {"v": f()}
    except BaseException as ex:
        return {"exc": type(ex).__name__, "msg": str(ex)[:200]}


def listed(vals, v):
    if vals == "*":
        return True
    return any(type(a) is type(v) and (a == v or (a != a and v != v)) for a in vals)


@op
class Call(Op):
    name = "fail.call"

    def gen(self, rng):
        nm = rng.choice(sorted(T) if rng.random() < 0.6 else sorted(MUST))
        vals = T[nm][0]
        d = rng.choice(DATA)
        return {"c": nm, "v": rng.randrange(len(vals)), "data": d, "n": {"one": 1, "two": 2}.get(d, rng.choice([13, 13, 34, 60])), "s": rng.getrandbits(30), "nulls": 0.15 if rng.random() < 0.5 else 0,
                "how": rng.choice(["select", "select", "lazy", "twice", "threads", "groupby", "over", "streaming", "filter", "sibling"])}

    def expr(self, p):
        vals, f = T[p["c"]]
        return f(vals[p["v"]]).alias("out")

    def frame(self, p):
        df = pl.DataFrame(frame({"n": p["n"], "s": p["s"], "nulls": p["nulls"]}), schema=SCH)
        return spoil(df, p["data"])

    def run(self, p, ctx):
        return self.go(p, lambda: self.expr(p), self.frame(p), ctx)

    def go(self, p, expr, df, ctx):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            how = p["how"]
            out = [outcome(lambda: plain(df.select(expr())["out"]))]
            ctx.preempt()
            if how == "lazy":
                out.append(outcome(lambda: plain(df.lazy().select(expr()).collect()["out"])))
            elif how in ("twice", "sibling"):
                out.append(outcome(lambda: plain(df.select(expr())["out"])))
                if how == "sibling":  # a healthy expression in the same query
                    x = outcome(lambda: plain(df.lazy().select(expr()).collect()["out"]))
                    out.append(x)
            elif how == "threads":
                got = []
                t = threading.Thread(target=lambda: got.append(outcome(lambda: plain(df.select(expr())["out"]))), daemon=True)
                t.start()
                out.append(outcome(lambda: plain(df.select(expr())["out"])))
                t.join()
                out += got
            elif how in ("groupby", "over"):
                g = df.with_columns(pl.Series("__g", [i % 3 for i in range(df.height)], dtype=pl.Int64))
                if how == "groupby":
                    x = outcome(lambda: plain(g.lazy().group_by("__g").agg(expr()).collect()["out"]))
                else:
                    x = outcome(lambda: plain(g.lazy().select(expr().over("__g")).collect()["out"]))
                out.append({"other": x})
            elif how == "streaming":
                out.append({"other": outcome(lambda: plain(df.lazy().select(expr()).collect(engine="streaming")["out"]))})
            elif how == "filter":
                out.append({"other": outcome(lambda: plain(df.lazy().filter(pl.int_range(pl.len()) % 2 == 0).select(expr()).collect()["out"]))})
            # the same frame still answers
            out.append({"sane": outcome(lambda: df.select(pl.len()).item())})
        return {"out": out, "n": df.height}

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"harness: {r.type} {r.msg}"]
        nm = p["c"]
        base = r["out"][0]
        vals = T[nm][0]
        if "exc" not in base and p["data"] == "fine" and nm in MUST and listed(MUST[nm], vals[p["v"]]) and self.due(p, vals[p["v"]]):
            return [f"{nm}({vals[p['v']]!r}) gave {str(base['v'])[:80]} instead of an error, for {brief(p)}"]
        return self.agree(p, nm, base, r)

    def due(self, p, v):
        """Some are wrong only if the column really has nulls (the frame may have none)."""
        c = v if isinstance(v, str) else None
        if nm_null(p["c"], c):
            cols = frame({"n": p["n"], "s": p["s"], "nulls": p["nulls"]})
            return any(a is None for k in nm_null(p["c"], c) for a in cols[k])
        return True

    def agree(self, p, nm, base, r):
        for x in r["out"][1:]:
            if "sane" in x:
                if x["sane"].get("v") != r["n"]:
                    return [f"after {nm} the frame answers {x['sane']}, for {brief(p)}"]
            elif "other" in x:
                continue
            elif ("exc" in x) != ("exc" in base):
                return [f"{nm}: the same call gave {brief2(base)} and then {brief2(x)}, for {brief(p)}"]
        return []

    def shape(self, p):
        return f"fail|{p['c']}|{p['v']}|{p['data']}|{p['how']}"


def brief2(x):
    return f"{x['exc']}: {x['msg'][:60]}" if "exc" in x else f"a value {str(x['v'])[:60]}"


def nm_null(nm, c):
    """The columns whose nulls make the call wrong."""
    if nm in ("roc.p", "iso.w", "iso.y", "rfft.c", "lr.multi.coef") and c in ("x", "i"):
        return [c]
    if nm in ("lr.np.pred", "lr.np.coef", "report.np") and c == "raise":
        return ["x", "y"]
    return None


@op
class Spoiled(Call):
    """Any expression of the other families over spoiled data."""

    name = "fail.data"

    def sources(self):
        if not hasattr(self, "_src"):
            self._src = dict(FRESH)
            for k, o in OPS.items():
                if isinstance(o, ExprOp) and not k.startswith("par.") and not o.known_errors:
                    self._src[k] = o
            self._names = sorted(self._src)
        return self._src

    def gen(self, rng):
        src = self.sources()
        nm = rng.choice(self._names)
        o = src[nm]
        q = o.gen(rng) if not nm.startswith("fresh.") else o.params(rng)
        return {"c": nm, "q": q, "data": rng.choice(DATA[3:]), "s": rng.getrandbits(30), "how": rng.choice(["select", "select", "lazy", "twice", "threads", "groupby", "over", "streaming", "filter"])}

    def expr(self, p):
        return self.sources()[p["c"]].expr(p["q"]).alias("out")

    def frame(self, p):
        o = self.sources()[p["c"]]
        df = pl.DataFrame(o.columns(p["q"]), schema=o.schema(p["q"]))
        if p["data"] in ("one", "two"):
            df = df.head(1 if p["data"] == "one" else 2)
        return spoil(df, p["data"])

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"harness: {r.type} {r.msg}"]
        return self.agree(p, p["c"], r["out"][0], r)

    def shape(self, p):
        return f"spoil|{p['c']}|{p['data']}|{p['how']}"


NARROW = [pl.Int8, pl.Int16, pl.Int32, pl.UInt8, pl.UInt16, pl.UInt32, pl.UInt64, pl.Int64, pl.Int128, pl.Float32, pl.Decimal(20, 3), pl.Float64]
# (no Struct: polars itself overflows the stack on exp() of a struct column)
ODD = [pl.Date, pl.Datetime("us"), pl.Duration("ms"), pl.Time, pl.Boolean, pl.String, pl.Binary, pl.Null, pl.List(pl.Int64), pl.Array(pl.Float64, 1), pl.Categorical, pl.Enum([])]


def retype(df, c, k):
    """The frame with column c as another type, and whether it holds the same values."""
    s = df[c]
    if s.dtype == pl.String and k % 3 == 0:
        v = sorted({x for x in s.to_list() if x is not None})
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return df.with_columns(s.cast([pl.Categorical, pl.Enum(v), pl.Binary][k // 3 % 3])), k // 3 % 3 < 2
    if s.dtype.is_numeric() and k % 2:
        d = NARROW[k // 2 % len(NARROW)]
        try:
            new = s.cast(d)
            same = new.cast(s.dtype).equals(s) and d != pl.Float32
        except Exception:
            return None
        return df.with_columns(new), same
    if s.dtype.is_nested() and k % 2:
        try:
            d = NARROW[k // 2 % len(NARROW)]
            new = s.cast(pl.List(d))
            return df.with_columns(new), new.cast(s.dtype).equals(s) and d != pl.Float32
        except Exception:
            return None
    d = ODD[k // 2 % len(ODD)]
    n = s.len()
    if d == pl.Null:
        new = pl.Series(c, [None] * n)
    elif isinstance(d, pl.Enum):
        new = pl.Series(c, ["a", None] * n, dtype=pl.Enum(["a", "b"])).head(n)
    elif d == pl.Categorical:
        new = pl.Series(c, ["a", None, "b"] * n, dtype=d).head(n)
    else:
        v = pl.Series(c, range(n), dtype=pl.Int64)
        if d.is_nested():
            new = pl.Series(c, [[i] for i in range(n)], dtype=d)
        elif d == pl.Binary:
            new = pl.Series(c, [b"x"] * n)
        else:
            new = v.cast(d)
    return df.with_columns(new), False


@op
class Retyped(Spoiled):
    """Any expression of the other families with one of its columns of another type.

    A value or an error; and if the column holds the same values as before, the same value or an error."""

    name = "fail.type"

    def gen(self, rng):
        p = Spoiled.gen(self, rng)
        p.update({"data": "fine", "col": rng.getrandbits(8), "k": rng.randrange(3 * 2 * len(NARROW) * len(ODD))})
        return p

    def frame(self, p):
        df = super().frame({**p, "data": "fine"})
        if p.get("orig"):
            return df
        x = retype(df, df.columns[p["col"] % df.width], p["k"])
        return df if x is None else x[0]

    def run(self, p, ctx):
        r = super().run(p, ctx)
        df = super().frame({**p, "data": "fine"})
        x = retype(df, df.columns[p["col"] % df.width], p["k"])
        if x is not None and x[1]:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r["orig"] = outcome(lambda: plain(df.select(self.expr(p))["out"]))
        r["was"] = f"{df.columns[p['col'] % df.width]} as {None if x is None else x[0].dtypes[p['col'] % df.width]}"
        return r

    def check(self, p, r, ctx):
        m = Spoiled.check(self, p, r, ctx)
        if m or "orig" not in r:
            return m
        a, b = r["out"][0], r["orig"]
        if "v" in a and "v" in b and not p["c"].startswith("rnd.") and not alike(a["v"], b["v"]):
            return [f"{p['c']} with {r['was']} gave {str(a['v'])[:120]} and with the same values as before {str(b['v'])[:120]}, for {brief(p)}"]
        return []

    def shape(self, p):
        return f"type|{p['c']}|{p['k'] % 78}"


def alike(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))
    return a == b or str(a) == str(b)


@op
class Storm(Call):
    """Calls of one function that fail many times over, between calls of it that must answer as they did before.

    What a failing call leaves behind (a permit kept, a lock poisoned, a counter off by one) adds up."""

    name = "fail.storm"

    def gen(self, rng):
        if not hasattr(self, "_groups"):
            self._groups = {}
            for nm in sorted(T):
                if nm not in UNSEEDED and not (T[nm][0] and isinstance(T[nm][0][0], int) and (1 << 40) in T[nm][0]):
                    self._groups.setdefault(nm.split(".")[0], []).append(nm)
        g = rng.choice(sorted(self._groups))
        ent = [(nm, i) for nm in self._groups[g] for i in range(len(T[nm][0]))]
        rng.shuffle(ent)
        good = rng.choice(["fine", "fine", "nan", "const"])
        return {"c": g, "ent": [list(e) for e in ent[: rng.choice([4, 8, 16])]], "times": rng.choice([3, 8, 20, 40]), "data": good, "bad": rng.choice(DATA), "n": rng.choice([9, 13, 34]), "s": rng.getrandbits(30),
                "nulls": rng.choice([0, 0, 0.15]), "threads": rng.choice([1, 1, 2, 3]), "gb": rng.random() < 0.3 and g not in ("iv", "woe", "psi")}  # (those per group: see the known findings)

    def run(self, p, ctx):
        df = self.frame(p)
        rot = self.frame({**p, "data": p["bad"], "n": {"one": 1, "two": 2}.get(p["bad"], p["n"])})

        def one(e, fr):
            vals, f = T[e[0]]
            if p["gb"]:
                return outcome(lambda: plain(fr.group_by(pl.int_range(pl.len()) % 2, maintain_order=True).agg(f(vals[e[1]]).alias("out"))["out"]))
            return outcome(lambda: plain(fr.select(f(vals[e[1]]).alias("out"))["out"]))

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            before = [one(e, df) for e in p["ent"]]
            worse = [(e, df) for e, x in zip(p["ent"], before) if "exc" in x] + [(e, rot) for e in p["ent"] if p["bad"] != "fine" and "exc" in one(e, rot)]

            def blow():
                for i in range(p["times"] if worse else 0):
                    one(*worse[i % len(worse)])
                    if i % 4 == 0:
                        ctx.preempt()

            ts = [threading.Thread(target=blow, daemon=True) for _ in range(p["threads"] - 1)]
            for t in ts:
                t.start()
            blow()
            for t in ts:
                t.join()
            after = [one(e, df) for e in p["ent"]]
        return {"b": before, "a": after, "w": len(worse)}

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"harness: {r.type} {r.msg}"]
        for e, b, a in zip(p["ent"], r["b"], r["a"]):
            v = T[e[0]][0][e[1]]
            if ("exc" in a) != ("exc" in b):
                return [f"{e[0]}({v!r}) gave {brief2(b)}, and after {p['times']} failing calls {brief2(a)}, for {brief(p)}"]
            if "v" in a and p["c"] != "xi_corr" and not alike(*([unsigned(a["v"]), unsigned(b["v"])] if p["c"] in ("pca", "pc") else [a["v"], b["v"]])):
                return [f"{e[0]}({v!r}) gave {str(b['v'])[:80]}, and after {p['times']} failing calls {str(a['v'])[:80]}, for {brief(p)}"]
        return []

    def shape(self, p):
        return f"storm|{p['c']}|{p['times']}|{p['data']}|{p['bad']}|{p['threads']}"


# ------------------------------------------------------------------ objects
def matrices(r, k):
    X = r.normal(size=(20, k))
    a = np.where(np.arange(20 * k).reshape(20, k) == 7 % (20 * k), np.nan, X)
    return {"ok": X, "empty": np.zeros((0, k)), "0col": np.zeros((20, 0)), "1d": np.ones(20), "nan": a, "inf": np.where(np.isnan(a), np.inf, X), "f32": X.astype(np.float32), "int": np.ones((20, k), int), "fat": X[:1],
            "const": np.ones((20, k)), "zeros": np.zeros((20, k)), "wide": np.ones((20, k + 1)), "narrow": X[:, : k - 1], "3d": np.ones((2, 3, k)), "list": X.tolist(), "short": X[:19], "huge": X * 1e300, "tiny": X * 1e-300,
            "step": np.repeat(X, 2, 0)[::2], "fort": np.asfortranarray(X), "none": None, "obj": X.astype(object)}


def targets(r):
    y = r.normal(size=20)
    return {"ok": y, "empty": np.zeros(0), "2d": y.reshape(-1, 1), "2col": np.c_[y, y], "nan": np.where(np.arange(20) == 3, np.nan, y), "short": y[:19], "f32": y.astype(np.float32), "int": np.ones(20, int), "none": None, "scalar": 1.0}


@op
class Object(Op):
    """A healthy model, then calls that fail; what raised must have changed nothing."""

    name = "fail.object"

    def gen(self, rng):
        k = rng.choice([1, 2, 3, 5])
        calls = []
        M, Y = list(matrices(np.random.default_rng(0), k)), list(targets(np.random.default_rng(0)))
        m = rng.choice(["kdt", "kdt", "lr", "en", "online"])
        for _ in range(rng.choice([2, 4, 8])):
            if m == "kdt":
                w = rng.choice(["add", "add", "knn", "within", "count", "k", "r", "rvec", "new"])
                v = {"k": [0, -1, 21, 1 << 40, 1 << 62, 1 << 63, 1 << 64, 1.5, "a"], "r": [0.0, -1.0, math.nan, math.inf, "a", None], "rvec": [3, 19, 21, 0]}.get(w)
                calls.append([w, rng.randrange(len(v)) if v else rng.choice(M), rng.random() < 0.5])
            else:
                w = rng.choice(["fit", "fit", "predict"] + (["update", "update"] if m == "online" else []))
                calls.append([w, rng.choice(M), rng.choice(["ok", "ok"] + Y)])
        return {"m": m, "k": k, "s": rng.getrandbits(30), "calls": calls, "bias": rng.random() < 0.5, "solver": rng.choice(["qr", "svd", "choleskey"]), "metric": rng.choice(["l1", "l2", "sql2", "inf"])}

    MUST_RAISE = {"kdt": {"add": ["empty", "0col", "1d", "nan", "f32", "int", "wide", "narrow", "3d", "list", "none", "obj"], "knn": ["empty", "0col", "1d", "f32", "int", "wide", "3d", "none"], "within": ["1d", "wide", "3d", "f32"],
                          "count": ["1d", "wide", "3d", "f32"], "new": ["empty", "0col", "1d", "f32", "3d", "none"]},
                  "lr": {"fit": ["empty", "1d", "f32", "fat", "3d", "list", "short", "none"], "predict": ["1d", "wide", "3d", "f32", "0col"]}}

    def run(self, p, ctx):
        r = np.random.default_rng(p["s"])
        ms, ys = matrices(r, p["k"]), targets(r)
        bad = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if p["m"] == "kdt":
                m = KDTree(ms["ok"], distance=p["metric"])
                ask = lambda: plain([m.count(), [np.asarray(a).tolist() for a in m.knn(ms["ok"], 4)], np.asarray(m.within_count(ms["ok"], 1.0)).tolist()])
            else:
                m = LR(has_bias=p["bias"], lambda_=0.1, solver=p["solver"]) if p["m"] == "lr" else ElasticNet(0.02, 0.1, has_bias=p["bias"]) if p["m"] == "en" else OnlineLR(lambda_=0.1, has_bias=p["bias"])
                m.fit(ms["ok"], ys["ok"])
                ask = lambda: plain([np.asarray(m.predict(ms["ok"])).ravel().tolist(), np.asarray(m.coeffs()).tolist(), m.bias()])
            before = ask()
            for w, a, b in p["calls"]:
                ctx.preempt()

                def call():
                    if p["m"] == "kdt":
                        if w == "add":
                            return m.add(ms[a])
                        if w == "knn":
                            return m.knn(ms[a], 3, parallel=b)
                        if w == "within":
                            return m.within(ms[a], 1.0, parallel=b)
                        if w == "count":
                            return m.within_count(ms[a], 1.0, parallel=b)
                        if w == "k":
                            return m.knn(ms["ok"], [0, -1, 21, 1 << 40, 1 << 62, 1 << 63, 1 << 64, 1.5, "a"][a], parallel=b)
                        if w == "r":
                            return m.within(ms["ok"], [0.0, -1.0, math.nan, math.inf, "a", None][a], parallel=b)
                        if w == "rvec":
                            return m.within_count(ms["ok"], np.ones([3, 19, 21, 0][a]), parallel=b)
                        return KDTree(ms[a], distance=p["metric"])
                    if w == "fit":
                        return m.fit(ms[a], ys[b])
                    if w == "predict":
                        return m.predict(ms[a])
                    return m.update(ms[a] if a != "ok" else ms["ok"][0], ys[b] if b != "ok" else 1.0)

                x = outcome(lambda: (call(), 0)[1])
                tag = f"{p['m']}.{w}({a!r}{', ' + repr(b) if p['m'] != 'kdt' else ''})"
                if "exc" in x:
                    if "Panic" in x["exc"]:
                        bad.append(f"{tag} panicked: {x['msg'][:80]}")
                    now = outcome(ask)
                    d = f"raises {now['exc']}" if "exc" in now else unlike(now["v"], before, 0.0)
                    if d:
                        bad.append(f"{tag} raised {x['exc']} and left the {p['m']} changed: {d}")
                        break
                else:
                    must = self.MUST_RAISE.get("kdt" if p["m"] == "kdt" else "lr", {}).get(w, [])
                    if (a in must and not (w == "fit" and a == b == "short")) or (w == "k" and a not in (2,)) or (w == "rvec") or (w == "r" and a in (4, 5)) or (w == "fit" and b in ("empty", "2col", "short", "f32", "none", "scalar") and a == "ok"):
                        bad.append(f"{tag} was accepted")
                    if w in ("fit", "update", "add"):
                        try:
                            before = ask()
                        except BaseException:
                            break
        return bad

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"harness: {r.type} {r.msg} for {brief(p)}"]
        return [f"{r[0]}, for {brief(p)}"] if r else []

    def shape(self, p):
        return f"fail|{p['m']}|" + "+".join(f"{c[0]}:{c[1]}" for c in p["calls"])


@op
class Steps(Op):
    """Blueprints and pipelines handed the wrong frame, then the right one again."""

    name = "fail.pipe"
    SPOIL = ["drop", "type", "empty", "allnull", "extra", "order"]
    WRONG = ["scale", "impute", "append", "target", "encode", "rename", "func", "sql"]

    def gen(self, rng):
        return {"s": rng.getrandbits(30), "n": rng.choice([8, 20, 40]), "spoil": [rng.choice(self.SPOIL) for _ in range(2)], "wrong": rng.choice(self.WRONG), "target": rng.random() < 0.5}

    def run(self, p, ctx):
        r = np.random.default_rng(p["s"])
        n = p["n"]
        df = pl.DataFrame({"a": r.normal(size=n), "b": [None if v < 0.2 else float(v) for v in r.random(n)], "c": [["u", "v", "w"][v] for v in r.integers(0, 3, n)], "y": [int(v) for v in r.integers(0, 2, n)]},
                          schema={"a": pl.Float64, "b": pl.Float64, "c": pl.String, "y": pl.Int64})
        bad = []
        mk = lambda: Blueprint(df, name="t", target="y").impute(["b"], method="mean").scale(["a", "b"], method="standard").target_encode(["c"])
        clean = mk().materialize()
        want = clean.transform(df).to_dict(as_series=False)
        bp = mk()

        def wrong():
            w = p["wrong"]
            if w == "scale":
                return bp.scale(["a"], method="nope")
            if w == "impute":
                return bp.impute(["b"], method="nope")
            if w == "append":
                return bp.append_expr(3)
            if w == "target":
                return bp.target_encode(["c"], target=None if p["target"] else "nope")
            if w == "encode":
                return bp.ordinal_encode(5)
            if w == "rename":
                return bp.rename(7)
            if w == "func":
                return bp.append_fit_func(None, ["a"], y=1)
            return bp.sql_transform(None)

        x = outcome(lambda: (wrong(), 0)[1])
        if "exc" in x:  # the step was refused: the blueprint is what it was
            got = outcome(lambda: bp.materialize().transform(df).to_dict(as_series=False))
            d = f"{got['exc']}: {got['msg']}" if "exc" in got else unlike(plain(got["v"]), plain(want), 1e-9)
            if d:
                bad.append(f"after a refused {p['wrong']} step the blueprint gives {d}")
        else:
            outcome(lambda: bp.materialize())
        for s in p["spoil"]:
            ctx.preempt()
            f = {"drop": lambda: df.drop("b"), "type": lambda: df.with_columns(pl.col("a").cast(pl.String) + "x"), "empty": lambda: df.clear(), "allnull": lambda: df.with_columns(pl.lit(None).cast(df.schema[c]).alias(c) for c in df.columns),
                 "extra": lambda: df.with_columns(pl.lit(1).alias("extra")), "order": lambda: df.select("y", "c", "b", "a")}[s]()
            x = outcome(lambda: (clean.transform(f), 0)[1])
            if s == "drop" and "exc" not in x:
                bad.append("a frame without a column it needs was accepted")
            got = outcome(lambda: clean.transform(df).to_dict(as_series=False))
            d = f"{got['exc']}: {got['msg']}" if "exc" in got else unlike(plain(got["v"]), plain(want), 1e-9)
            if d:
                bad.append(f"after transforming a frame spoiled by {s!r} the pipeline gives {d}")
        return bad

    def check(self, p, r, ctx):
        if isinstance(r, Exc):
            return [f"harness: {r.type} {r.msg} for {brief(p)}"]
        return [f"{r[0]}, for {brief(p)}"] if r else []

    def shape(self, p):
        return f"fail|pipe|{p['wrong']}|{'+'.join(p['spoil'])}"


HEALTHY = ("knn.", "strs.", "ts.", "nums.", "stat.", "text.", "lr.", "roll.", "kdt.", "online.", "rnd.contract", "par.", "dia.")


def gen(rng, sc):
    names = sorted(k for k, o in OPS.items() if k.startswith(HEALTHY) and not getattr(o, "known_errors", None))
    fams = {}
    for k in names:
        fams.setdefault(k.split(".")[0], []).append(k)
    pick = lambda: rng.choice(fams[rng.choice(sorted(fams))])
    cl = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            nm = rng.choices(["fail.call", "fail.data", "fail.type", "fail.object", "fail.pipe", "fail.storm", None], [30, 17, 14, 12, 4, 8, 15])[0] or pick()
            ops.append({**OPS[nm].gen(rng), "f": nm})
        nm = pick()
        ops.append({**OPS[nm].gen(rng), "f": nm})
        cl.append(ops)
    return {"clients": cl}
