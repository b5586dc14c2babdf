From 9f7cab810d77844269aea664469a3323b9ab35a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 001/125] fix: allow literal constants in input text on Python
 3.8 and later

---
 geotecha/inputoutput/inputoutput.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 3d4fc92..8be482d 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -280,6 +280,9 @@ class SyntaxChecker(ast.NodeVisitor):
             #py34_addtional
             Bytes NameConstant #Nonlocal Starred Try YieldFrom arg
             withitem
+
+            #py38_additional (replaces Num, Str, Bytes, NameConstant)
+            Constant
             """)
 
         for v in [a for a in s.split() if not a.startswith('#')]:
-- 
2.43.0


From b9ab633b622fa4f5a3ba2a332d4d3b4622955357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 002/125] fix: assigning a name in input text no longer unlocks
 attributes or builtins that are not allowed

---
 geotecha/inputoutput/inputoutput.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 8be482d..359bb27 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -159,6 +159,7 @@ class SyntaxChecker(ast.NodeVisitor):
         self.allowed_functions = dict()
         self.allowed_node_types = dict()
         self.allowed_attributes = set()
+        self.assigned_names = set()
         self.safe_names = {'True': True, 'False': False, 'None': None}#dict()
         self.print_each_node = False
         for v in allow:
@@ -192,9 +193,15 @@ class SyntaxChecker(ast.NodeVisitor):
             print('NAME: ', ast.dump(node))
 
         if type(node.ctx).__name__=='Store':
-            self.allowed_attributes.add(node.id)
+            # an assigned name must not become a way to reach a builtin or
+            # dunder name that is not allowed
+            if not node.id.startswith('__') and not hasattr(__builtin__, node.id):
+                self.assigned_names.add(node.id)
         elif type(node.ctx).__name__=='Load':
-            if node.id not in self.safe_names and node.id not in self.allowed_functions and node.id not in self.allowed_attributes:
+            if (node.id not in self.safe_names
+                    and node.id not in self.allowed_functions
+                    and node.id not in self.allowed_attributes
+                    and node.id not in self.assigned_names):
                 raise SyntaxError("cannot use {} as name, function, or attribute!".format(node.id))
                 sys.exit(0)
         ast.NodeVisitor.generic_visit(self, node)#
-- 
2.43.0


From ac6f3477f1b1acebcf27f53a5f5c379eb7d0a227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 003/125] fix: index arrays with tuples of slices (lists of
 slices are rejected by numpy >= 1.23)

---
 geotecha/mathematics/quadrature.py | 4 ++--
 geotecha/plotting/one_d.py         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/mathematics/quadrature.py b/geotecha/mathematics/quadrature.py
index 0f56169..06d0424 100644
--- a/geotecha/mathematics/quadrature.py
+++ b/geotecha/mathematics/quadrature.py
@@ -1248,7 +1248,7 @@ def gk_quad(f, a, b, args=(), n=10, sum_intervals=False):
     #get shape of output with scalar argument and form a slice that will ensure
     #any extra dims are appended to the args.
     extra = np.array(f(xij.flat[0], *args))
-    gen_slice = [slice(None)] * xij.ndim + [None] * extra.ndim
+    gen_slice = tuple([slice(None)] * xij.ndim + [None] * extra.ndim)
 
     fij = f(xij[gen_slice], *args)
 
@@ -1332,7 +1332,7 @@ def gl_quad(f, a, b, args=(), n=10, shanks_ind=False, sum_intervals=False):
     #get shape of output with scalar argument and form a slice that will ensure
     #any extra dims are appended to the args.
     extra = np.array(f(xij.flat[0], *args))
-    gen_slice = [slice(None)] * xij.ndim + [None] * extra.ndim
+    gen_slice = tuple([slice(None)] * xij.ndim + [None] * extra.ndim)
 
     fij = f(xij[gen_slice], *args)
 
diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index aeb02c2..052efc1 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -978,7 +978,7 @@ def row_major_order_reverse_map(shape, index_steps=None, transpose=False):
 
 
     pos=np.arange(np.product(shape)).reshape(shape)
-    a=[slice(None,None,i) for i in index_steps]
+    a=tuple([slice(None,None,i) for i in index_steps])
     pos[...]=pos[a]
 
     if transpose:
-- 
2.43.0


From 66ef7eae3b786fb490e6208e096e27e98084bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 004/125] fix: ntransform works where collections.Callable is
 gone and when opts is a single dict

---
 geotecha/mathematics/multi_transform.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geotecha/mathematics/multi_transform.py b/geotecha/mathematics/multi_transform.py
index 5afff1e..b51ccfc 100644
--- a/geotecha/mathematics/multi_transform.py
+++ b/geotecha/mathematics/multi_transform.py
@@ -29,7 +29,6 @@ from numpy.testing import assert_allclose
 from geotecha.mathematics.laplace import Talbot
 from geotecha.mathematics.hankel import HankelTransform
 from geotecha.mathematics.fourier import FourierTransform
-import collections
 
 
 
@@ -146,9 +145,9 @@ def ntransform(func, transforms, transvars, args=None, opts=None):
         opts = [dict([])] * depth
 
     if isinstance(opts, dict):
-        opts = [opts] * depth
+        opts = [_OptFunc(opts)] * depth
     else:
-        opts = [opt if isinstance(opt, collections.Callable) else
+        opts = [opt if callable(opt) else
                 _OptFunc(opt) for opt in opts]
 
     return _NTransform(func, transforms,
-- 
2.43.0


From 418d5cf95e1e690b05590515d8923f2f4917de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 005/125] fix: use Legend.set_draggable (Legend.draggable was
 removed from matplotlib)

---
 geotecha/beam_on_foundation/dingetal2012.py   |  2 +-
 geotecha/beam_on_foundation/specbeam.py       | 56 +++++++++----------
 geotecha/consolidation/dengetal2013and2014.py |  8 +--
 geotecha/consolidation/luetal2010.py          |  2 +-
 geotecha/consolidation/shanetal2012.py        |  4 +-
 geotecha/consolidation/xieandleo2004.py       | 10 ++--
 geotecha/constitutive_models/swcc.py          |  4 +-
 .../constitutive_models/void_ratio_stress.py  |  2 +-
 geotecha/plotting/one_d.py                    |  6 +-
 .../speccon/speccon1d_unsat_interactive.py    |  6 +-
 10 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 09a7b20..8eebbd7 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -481,7 +481,7 @@ def dingetal_figure_8():
             f.write("Run time={}".format(str(timedelta(seconds=elapsed_time))) + os.linesep)
         
         leg = ax.legend()
-        leg.draggable()
+        leg.set_draggable(True)
           
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 6c155bc..c98baa9 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1256,7 +1256,7 @@ class SpecBeam(object):
             ax.set_ylabel("w")
 
         leg = ax.legend()
-        leg.draggable()
+        leg.set_draggable(True)
 
 
         return ax
@@ -1842,7 +1842,7 @@ class MovingPointLoads(object):
         ax.set_ylabel("magnitude")
         leg = ax.legend(title ="$i,\\omega,\\phi$",
                         labelspacing=0)
-        leg.draggable(0)
+        leg.set_draggable(False)
 
         return ax
 
@@ -2353,7 +2353,7 @@ def dingetal_figure_8(v_nterms=(50,75,150,200)):
             f.write("Run time={}".format(str(timedelta(seconds=elapsed_time))) + os.linesep)
 
         leg = ax.legend()
-        leg.draggable()
+        leg.set_draggable(True)
 
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
@@ -2544,7 +2544,7 @@ def SpecBeam_const_mat_midpoint_defl_runme_analytical_play():
                 color='red', marker='s', ms=4, ls=':')
 
         leg = ax.legend(loc='upper left')
-        leg.draggable()
+        leg.set_draggable(True)
 
         plt.show()
 
@@ -3154,7 +3154,7 @@ def FIGURE_defl_envelope_vary_velocity(velocities_norm=(0.01165,),saveas=None,nt
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3367,7 +3367,7 @@ def FIGURE_DAF_constant_prop(saveas=None,nterms=100,force_calc=True,prefix="",
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3703,7 +3703,7 @@ def FIGURE_DAF_transition_length_esveld(saveas=None,k_ratio=4,beta=0.1,nterms=10
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3883,7 +3883,7 @@ def FIGURE_DAFwrtinf_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
         ax2.xaxis.labelpad = -1
         ax2.yaxis.labelpad = 0
         fig2.subplots_adjust(**adjust)
@@ -3910,7 +3910,7 @@ def FIGURE_DAFwrtinf_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -4092,7 +4092,7 @@ def FIGURE_DAFwrtinf_transition_lengthrev(saveas=None,k_ratio=4,beta=0.1,nterms=
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
         ax2.xaxis.labelpad = -1
         ax2.yaxis.labelpad = 0
         fig2.subplots_adjust(**adjust)
@@ -4119,7 +4119,7 @@ def FIGURE_DAFwrtinf_transition_lengthrev(saveas=None,k_ratio=4,beta=0.1,nterms=
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -4320,7 +4320,7 @@ def FIGURE_DAFwrtinf_transition_length_betaconst(saveas=None,k_ratio=4,beta=0.1,
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
         ax2.xaxis.labelpad = -1
         ax2.yaxis.labelpad = 0
         fig2.subplots_adjust(**adjust)
@@ -4347,7 +4347,7 @@ def FIGURE_DAFwrtinf_transition_length_betaconst(saveas=None,k_ratio=4,beta=0.1,
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -4498,7 +4498,7 @@ def esveld_fig6p18():
             DAF[i] = mx
         ax.plot(alpha, DAF, label="$\\beta=" + str(bet) + "$")
     leg = ax.legend()
-    leg.draggable()
+    leg.set_draggable(True)
     ax.set_ylim([0,4])
     ax.set_xlim([0,3])
     ax.grid()
@@ -7030,7 +7030,7 @@ def case_study_PaixaoEtAl2014(
         ax.set_xlim(50, -5)
         leg = ax.legend(fontsize=8,
                         loc='upper left')
-        leg.draggable()
+        leg.set_draggable(True)
         fig.subplots_adjust(top=0.95, bottom=0.13, left=0.19, right=0.9)
         ####################
         #Kplot
@@ -7048,12 +7048,12 @@ def case_study_PaixaoEtAl2014(
 
             leg = axs[i].legend(fontsize=8,
                     loc='lower left')
-            leg.draggable()
+            leg.set_draggable(True)
 
         leg = ax2.legend(fontsize=8,
                         loc='upper left',
                         numpoints=1)
-        leg.draggable()
+        leg.set_draggable(True)
 
         #displacemetn vs tiem at points plot
         ###################
@@ -7340,7 +7340,7 @@ def transition_DAF1_at_specific_alp(saveas=None,
         elapsed_time = (end_time1 - start_time1); print("Run time={}".format(str(timedelta(seconds=elapsed_time))))
 
     leg = ax.legend()
-    leg.draggable()
+    leg.set_draggable(True)
     leg = ax.legend(
 #                    title="$\\beta$",
 #                    loc="upper center",
@@ -7937,7 +7937,7 @@ def transition_zones1(
                     fontsize=8,
                     numpoints=1,
                         )
-    leg.draggable()
+    leg.set_draggable(True)
 
     ax2.xaxis.labelpad = -1
     ax2.yaxis.labelpad = 0
@@ -7960,7 +7960,7 @@ def transition_zones1(
                     fontsize=8,
                     numpoints=1,
                     loc="center left",)
-        leg.draggable()
+        leg.set_draggable(True)
 
     ax5.set_xlabel('$Time (s)$')
     ax5.set_ylabel('$w/w_{static1}$')
@@ -7972,7 +7972,7 @@ def transition_zones1(
                 numpoints=1,
                 loc="lower right",)
 
-    leg.draggable()
+    leg.set_draggable(True)
     fig5.subplots_adjust(top=0.95, bottom=0.13, left=0.15, right=0.95)
     if not saveas is None:
 
@@ -8407,7 +8407,7 @@ def transition_zones2(animateme=False,
                     fontsize=8,
                     numpoints=1,
                         )
-    leg.draggable()
+    leg.set_draggable(True)
 
     ax2.xaxis.labelpad = -1
     ax2.yaxis.labelpad = 0
@@ -8427,7 +8427,7 @@ def transition_zones2(animateme=False,
                     handlelength=2,
                     fontsize=8,
                     numpoints=1)
-        leg.draggable()
+        leg.set_draggable(True)
 
     ax5.set_xlabel('$time$')
     ax5.set_ylabel('$w/w_{static1}$')
@@ -8438,7 +8438,7 @@ def transition_zones2(animateme=False,
                 fontsize=8,
                 numpoints=1)
 
-    leg.draggable()
+    leg.set_draggable(True)
 
 
     for i, alp in enumerate(alphas):
@@ -8501,7 +8501,7 @@ def transition_zones2(animateme=False,
                      handletextpad=0.1,
                      borderpad=0.2,
                      columnspacing=0.2)
-    leg.draggable()
+    leg.set_draggable(True)
 #        for k, Lt_Lcs in enumerate(Lt_Lcs):
     fig6.subplots_adjust(top=0.98, bottom=0.15, left=0.18, right=0.98)
 
@@ -8817,7 +8817,7 @@ def FIG_DAF_envelope_vary_beta(ax=None, betas=None, alphas=None,
                     fontsize=8,
                     numpoints=1,
                         )
-    leg.draggable()
+    leg.set_draggable(True)
 
     ax.xaxis.labelpad = -1
     ax.yaxis.labelpad = 0
@@ -8975,7 +8975,7 @@ def specbeam_vs_analytical_single_static_load():
     ax.set_title('Single static load at beam midpoint')
 
     leg = ax.legend()
-    leg.draggable()
+    leg.set_draggable(True)
 
     mytimer.finish(0)
     plt.show()
@@ -9600,7 +9600,7 @@ if __name__ == "__main__":
                 f.write("Run time={}".format(str(timedelta(seconds=elapsed_time))) + os.linesep)
 
             leg = ax.legend()
-            leg.draggable()
+            leg.set_draggable(True)
 
             end_time0 = time.time()
             elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 0f5107c..089da9d 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -371,7 +371,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None')
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
@@ -456,7 +456,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None')
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
@@ -519,7 +519,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None')
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
@@ -671,7 +671,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None', markersize=7)
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
diff --git a/geotecha/consolidation/luetal2010.py b/geotecha/consolidation/luetal2010.py
index ec9215e..6515481 100644
--- a/geotecha/consolidation/luetal2010.py
+++ b/geotecha/consolidation/luetal2010.py
@@ -238,7 +238,7 @@ if __name__ == '__main__':
         ax.set_xlim(0,1)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
     fig=plt.figure()
     ax = fig.add_subplot(1,1,1)
diff --git a/geotecha/consolidation/shanetal2012.py b/geotecha/consolidation/shanetal2012.py
index 9733f67..e3e5cc1 100644
--- a/geotecha/consolidation/shanetal2012.py
+++ b/geotecha/consolidation/shanetal2012.py
@@ -566,7 +566,7 @@ if __name__ == '__main__':
         ax.grid()
         ax.set_title(title)
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
 
 
@@ -581,7 +581,7 @@ if __name__ == '__main__':
     ax.grid()
     ax.set_title(title)
     leg = plt.legend(loc=3 )
-    leg.draggable()
+    leg.set_draggable(True)
 
 
 
diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index b6faeec..09e72c3 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -978,7 +978,7 @@ class XieAndLeo2004(object):
         ax.set_xscale('log')
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
         #u vs depth
         ax = fig.add_subplot(2,4,2)
@@ -1005,7 +1005,7 @@ class XieAndLeo2004(object):
                          ncol=len(t))
 
 
-        leg.draggable()
+        leg.set_draggable(True)
 
         #total pore pressure vs depth
         ax = fig.add_subplot(2,4,6)
@@ -1191,7 +1191,7 @@ def xie_and_leo_2004_figure_4(ax=None):
         label='$U_s={Us:6.3g},\hspace{{0.5}}T_v={Tv:6.3g},\hspace{{0.5}}'
          't={t:6.3g}$'.format(Tv=obj.dTv*t_, t=t_, Us=Us_))
     leg = ax.legend(loc=1, labelspacing=0.0, fontsize=11)
-    leg.draggable()
+    leg.set_draggable(True)
     return
 
 
@@ -1248,7 +1248,7 @@ def xie_and_leo_2004_figure_5(ax=None):
         label='$U_s={Us:6.3g},\hspace{{0.5}}T_v={Tv:6.3g},\hspace{{0.5}}'
          't={t:6.3g}$'.format(Tv=obj.dTv*t_, t=t_, Us=Us_))
     leg = ax.legend(loc=1, labelspacing=0.0, fontsize=11)
-    leg.draggable()
+    leg.set_draggable(True)
     return
 
 
@@ -1344,7 +1344,7 @@ def xie_and_leo_2004_figure_6(ax=None):
 
 
     leg = ax.legend(lines, labels,loc=1, labelspacing=0.0, fontsize=12)
-    leg.draggable()
+    leg.set_draggable(True)
 
 
 
diff --git a/geotecha/constitutive_models/swcc.py b/geotecha/constitutive_models/swcc.py
index ed8d9d6..56ab512 100644
--- a/geotecha/constitutive_models/swcc.py
+++ b/geotecha/constitutive_models/swcc.py
@@ -223,7 +223,7 @@ class SWCC_FredlundAndXing1994(SWCC):
             ax.set_xlabel('$\\psi$')
             ax.set_ylabel('$dw/d\\psi$')
         leg = ax.legend(loc=4)
-        leg.draggable()
+        leg.set_draggable(True)
 #            print(np.isclose(slope_a, slope_n))
 #            print(slope_a-slope_n)
         plt.show()
@@ -595,7 +595,7 @@ class SWCC_PhamAndFredlund2008(SWCC):
             ax.set_xlabel('$\\psi$')
             ax.set_ylabel('$dw/d\\psi$')
         leg = ax.legend(loc=4)
-        leg.draggable()
+        leg.set_draggable(True)
 #            print(np.isclose(slope_a, slope_n))
 #            print(slope_a-slope_n)
         plt.show()
diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index a914f02..413b1d3 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -2083,5 +2083,5 @@ if __name__ == '__main__':
         plt.plot(estress, e, label='step', marker='o', ms=2)
         plt.gca().set_xscale('log')
         leg = plt.gca().legend()
-        leg.draggable()
+        leg.set_draggable(True)
         plt.show()
\ No newline at end of file
diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 052efc1..158a582 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1443,7 +1443,7 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
         if has_legend:
             leg = ax1[-1].legend(**legend_prop)
-            leg.draggable(True)
+            leg.set_draggable(True)
             plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
         #load_vs_depth plot stuff
 
@@ -1586,7 +1586,7 @@ def plot_vs_time(t, y, line_labels=None, prop_dict={}):
 
     if has_legend:
         leg = fig.gca().legend(**legend_prop)
-        leg.draggable(True)
+        leg.set_draggable(True)
         plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
     return fig
 
@@ -1962,7 +1962,7 @@ def plot_vs_depth(x, z, line_labels=None, H = 1.0, RLzero=None,
 
     if has_legend:
         leg = fig.gca().legend(**legend_prop)
-        leg.draggable(True)
+        leg.set_draggable(True)
         plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
     return fig
 
diff --git a/geotecha/speccon/speccon1d_unsat_interactive.py b/geotecha/speccon/speccon1d_unsat_interactive.py
index 141d476..cce28d5 100644
--- a/geotecha/speccon/speccon1d_unsat_interactive.py
+++ b/geotecha/speccon/speccon1d_unsat_interactive.py
@@ -222,7 +222,7 @@ figure_ext='.png'
         ax.set_xlim(0)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
         fig = plt.figure()
         ax=fig.add_subplot('111')
@@ -234,7 +234,7 @@ figure_ext='.png'
         ax.set_xlim(0)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
 
         fig = plt.figure()
@@ -247,7 +247,7 @@ figure_ext='.png'
         ax.set_xlim(0)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.show()
 
 
-- 
2.43.0


From 9bf9cdd78427008b28276ea3d9eb99cb5ccd894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 006/125] fix: interpolate scalars when combining polylines
 (numpy >= 1.24 rejects ragged points)

---
 geotecha/piecewise/piecewise_linear_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 7a2e869..d27ae6a 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2528,7 +2528,7 @@ class PolyLine(object):
                     y1 = data[j[0], 1]
                     y1_= data[j[-1],1]
                 else: #interpolate
-                    y1 = interp_x_y(xa, ya, x, choose_max=False)
+                    y1 = interp_x_y(xa, ya, x, choose_max=False)[0]
                     y1_= y1
 
                 j = np.where((ind) & (data[:, 2] == 1))[0]
@@ -2537,7 +2537,7 @@ class PolyLine(object):
                     y2 = data[j[0], 1]
                     y2_= data[j[-1],1]
                 else: #interpolate
-                    y2 = interp_x_y(xb, yb, x, choose_max=False)
+                    y2 = interp_x_y(xb, yb, x, choose_max=False)[0]
                     y2_= y2
 
                 y = op(y1, y2)
@@ -2636,7 +2636,7 @@ def polyline_make_x_common(*p_lines):
                 y1 = data[j[0], 1]
                 y1_= data[j[-1],1]
             else: #interpolate
-                y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)
+                y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)[0]
                 y1_= y1
             pnts[k].append([x,y1])
             if abs(y1 - y1_)> (atol + rtol * abs(y1_)):
-- 
2.43.0


From c00fd677ef7b337c6389ebcfe420b7fba57d7119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 007/125] fix: is_initially_increasing for data that starts
 with a step

---
 geotecha/piecewise/piecewise_linear_1d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index d27ae6a..c4b9aca 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -73,7 +73,8 @@ def is_initially_increasing(x):
     if x[1] != x[0]:
         return x[1] > x[0]
     x = np.asarray(x)
-    return np.where(np.diff(x) != 0)[0][0] > 0
+    dx = np.diff(x)
+    return dx[np.where(dx != 0)[0][0]] > 0
 
 
 #used info from http://stackoverflow.com/questions/4983258/python-how-to-check-list-monotonicity
-- 
2.43.0


From 827bc45425c9e5d528ff16f4fe4d9ad6f78269b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 008/125] fix: find constant and step segments when the data
 has repeated points

---
 geotecha/piecewise/piecewise_linear_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index c4b9aca..43e2012 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -370,7 +370,7 @@ def start_index_of_constants(x, y):
     y = np.asarray(y)
 
 
-    return np.delete(np.where(np.diff(y)==0)[0], np.where((np.diff(x)==0) & (np.diff(y)==0))[0])
+    return np.where((np.diff(x) != 0) & (np.diff(y) == 0))[0]
 
 
 def start_index_of_steps(x, y):
@@ -398,7 +398,7 @@ def start_index_of_steps(x, y):
     y = np.asarray(y)
 
 
-    return np.delete(np.where(np.diff(x)==0)[0], np.where((np.diff(x)==0) & (np.diff(y)==0))[0])
+    return np.where((np.diff(x) == 0) & (np.diff(y) != 0))[0]
 
 
 def segment_containing_xi(x, xi, subset=None, choose_max=False):
-- 
2.43.0


From 70f211882bf9ae9b5f2a579117b120a88ef0b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 009/125] fix: adding a scalar to a PolyLine no longer changes
 the PolyLine

---
 geotecha/piecewise/piecewise_linear_1d.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 43e2012..0f0c035 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2469,9 +2469,6 @@ class PolyLine(object):
     def _add_substract(self, other, op = operator.add):
         """Addition or subtraction of PolyLine objects"""
 
-        mp = {operator.add: operator.iadd, operator.sub: operator.isub}
-        iop = mp[op]
-
         if isinstance(other, PolyLine):
 
             if ((not (non_increasing(self.x) or non_decreasing(self.x))) or
@@ -2553,7 +2550,7 @@ class PolyLine(object):
 
 
         try:
-            return PolyLine(self.x, iop(self.y, other))
+            return PolyLine(self.x, op(self.y, other))
 #            a = copy.deepcopy(self)
 #            #a._xy[:,1] += other
 #
-- 
2.43.0


From 5d9d1b9690069f3bdcf2b4e51467db7fb3aceae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 010/125] fix: force_strictly_increasing works on a copy, and
 on integer data

---
 geotecha/piecewise/piecewise_linear_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 0f0c035..ce65d5b 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -258,7 +258,7 @@ def force_strictly_increasing(x, y = None, keep_end_points = True, eps = 1e-15):
 
     """
 
-    x = np.asarray(x)
+    x = np.array(x, dtype=float)
     y = np.asarray(y)
 
     if strictly_increasing(x):
-- 
2.43.0


From 0417eb290b8b5ece6c4e3d72b9eedeb584a7521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 011/125] fix: layer_coords passes an integer number of points
 to linspace

---
 geotecha/piecewise/piecewise_linear_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index ce65d5b..8c08f1b 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2917,7 +2917,7 @@ def layer_coords(h, segs, min_segs=1):
     z2 = np.cumsum(h)
     z1 = z2 - h
     dx = np.sum(h) / segs
-    num = [max(height//dx, min_segs) for height in h]
+    num = [int(max(height//dx, min_segs)) for height in h]
 
     zlist = [np.linspace(z1_, z2_, num_, endpoint=False) for (z1_, z2_, num_) in zip(z1, z2, num)]
     zlist.append([z2[-1]])
-- 
2.43.0


From bfceb8734afc12a82ea546864df2e19fff4fd9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 012/125] fix: log subdivision leaves the caller's data alone
 and reports negative values

---
 geotecha/piecewise/piecewise_linear_1d.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 8c08f1b..4c31f8e 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2709,8 +2709,8 @@ def subdivide_x_y_into_segments(x, y, dx=None, min_segments = 2,
     """
 
 
-    x = np.asarray(x, dtype=float)
-    y = np.asarray(y, dtype=float)
+    x = np.array(x, dtype=float)
+    y = np.array(y, dtype=float)
 
 
     if len(x)!=len(y):
@@ -2720,13 +2720,13 @@ def subdivide_x_y_into_segments(x, y, dx=None, min_segments = 2,
         x[np.abs(x) <= (atol + rtol * np.abs(x))] = logxzero
         if np.any(x<0):
             raise ValueError('When logx=True cannot have negative '
-                                'x values, x=' + x)
+                                'x values, x={}'.format(x))
         x = np.log10(x)
     if logy:
         y[np.abs(y) <= (atol + rtol * np.abs(y))] = logyzero
         if np.any(y<0):
             raise ValueError('When logy=True cannot have negative '
-                                'y values, y=' + x)
+                                'y values, y={}'.format(y))
         y = np.log10(y)
 
 
@@ -2831,7 +2831,7 @@ def subdivide_x_into_segments(x, dx=None, min_segments=2,
     """
 
 
-    x = np.asarray(x, dtype=float)
+    x = np.array(x, dtype=float)
 
 
 
@@ -2839,7 +2839,7 @@ def subdivide_x_into_segments(x, dx=None, min_segments=2,
         x[np.abs(x) <= (atol + rtol * np.abs(x))] = logxzero
         if np.any(x<0):
             raise ValueError('When logx=True cannot have negative '
-                                'x values, x=' + x)
+                                'x values, x={}'.format(x))
         x = np.log10(x)
 
 
-- 
2.43.0


From bf93055b27d967eedeaec986eaefff6d48516e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 013/125] fix: single (omega, phase) tuple accepted by the
 cosine superposition function

---
 geotecha/piecewise/piecewise_linear_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 4c31f8e..29d7afd 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2072,7 +2072,7 @@ def pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_betwe
         b = [b]
     if omega_phase is None:
         omega_phase = [None] * len(a)
-    if not isinstance(b, list):
+    if not isinstance(omega_phase, list):
         omega_phase = [omega_phase]
 
     if len(a)!=len(b):
-- 
2.43.0


From 82df9b4ca0487bbb0f03c021fa3aa1f4588c8109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 014/125] fix: boundary value at a step is the value after the
 step, as everywhere else, in dim1sin_foft

---
 geotecha/speccon/speccon1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/speccon/speccon1d.py b/geotecha/speccon/speccon1d.py
index 9cf48ea..6032fec 100644
--- a/geotecha/speccon/speccon1d.py
+++ b/geotecha/speccon/speccon1d.py
@@ -2134,7 +2134,7 @@ def dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(drn,
             if not theta_zero_indexes is None:
                 theta[theta_zero_indexes] = 0.0
             for top_vs_t, om_ph in zip(top_vs_time, top_omega_phase):
-                E = pwise.pinterp_x_y(top_vs_t, tvals)
+                E = pwise.pinterp_x_y(top_vs_t, tvals, choose_max=True)
                 if not om_ph is None:
                     omega, phase = om_ph
                     E*= np.cos(omega * tvals + phase)
@@ -2148,7 +2148,7 @@ def dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(drn,
             if not theta_zero_indexes is None:
                 theta[theta_zero_indexes] = 0.0
             for bot_vs_t, om_ph in zip(bot_vs_time, bot_omega_phase):
-                E = pwise.pinterp_x_y(bot_vs_t, tvals)
+                E = pwise.pinterp_x_y(bot_vs_t, tvals, choose_max=True)
                 if not om_ph is None:
                     omega, phase = om_ph
                     E*= np.cos(omega * tvals + phase)
-- 
2.43.0


From 99bebff58532a67e5424e1f112c1a894c9da49e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 015/125] fix: well pore pressure uses the bottom gradient
 normalised by H

---
 geotecha/speccon/speccon1d_vrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 6025bd2..82107ef 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1094,7 +1094,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
                             self.v_E_Igamv_the[:, self.ppress_z_tval_indexes])
         self.porwell = speccon1d.dim1sin_f(self.m, self.ppress_z, tvals,
                                v_E_Igamv_the, self.drn,
-                               self.top_vs_time, self.bot_vs_time,
+                               self.top_vs_time, bot_vs_time,
                                self.top_omega_phase, self.bot_omega_phase)
 
 
-- 
2.43.0


From 9f1225d5ce326a1771de2529599affc9337f3b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 016/125] fix: boundary part of the well pore pressure is
 divided by dT like psi_w

---
 geotecha/speccon/speccon1d_vrw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 82107ef..c97fe99 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1106,8 +1106,8 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
         #TODO: not entirely sure about dTw.  I think it is needed for the
         # theta cv part.
-        self.porwell += self.dTw * speccon1d.dim1sin_f(self.m, self.ppress_z,
-                                            tvals, v_E_Igamv_the, self.drn)
+        self.porwell += self.dTw / self.dT * speccon1d.dim1sin_f(self.m,
+                            self.ppress_z, tvals, v_E_Igamv_the, self.drn)
         return
 
 
-- 
2.43.0


From cc0eb80524b8377349f7669e2ee51deb9d8b9ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 017/125] fix: boundary part of soil and column pore pressure
 is divided by dT like psi

---
 geotecha/speccon/speccon1d_vrc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index acd25b2..b5f3592 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1077,13 +1077,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
@@ -1099,13 +1099,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
@@ -1150,13 +1150,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
@@ -1172,13 +1172,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
-- 
2.43.0


From d9b1e6cc0cde6cfb005e7614c8df23319d8398d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 018/125] fix: column vertical drainage enters the boundary
 terms with weight G, and with opposite sign to the soil's

---
 geotecha/speccon/speccon1d_vrc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index b5f3592..e65a3a7 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1035,7 +1035,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                 self.E_Igamv_the_BC += (self.dTvc *
                     speccon1d.dim1sin_E_Igamv_the_BC_D_aDf_linear(
                         self.drn, self.m, self.eigs, self.tvals,
-                        self.Igamv.dot(np.identity(self.neig, dtype=float)-G),
+                        self.Igamv.dot(G),
                         self.kvc, self.top_vs_time,
                         bot_vs_time, self.top_omega_phase,
                         self.bot_omega_phase, self.dT,
@@ -1090,7 +1090,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.pors += speccon1d.dim1sin_f(self.m, self.ppress_z,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
         #column pore pressure at depth
         self.porc = speccon1d.dim1sin_f(self.m, self.ppress_z,
@@ -1112,7 +1112,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.porc += speccon1d.dim1sin_f(self.m, self.ppress_z,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
         return
 
 
@@ -1163,7 +1163,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.avps += speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
         #column pore pressure at depth
         self.avpc = speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
@@ -1185,7 +1185,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.avpc += speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
 
         return
-- 
2.43.0


From c94e7fbe43ce049aa220e9518710387ee1e2502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 019/125] fix: water pressure part of the air settlement is
 taken from seta, not setw

---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 9e4caab..71f24ab 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1244,7 +1244,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
                      self.atop_vs_time, abot_vs_time,
                      self.atop_omega_phase, self.abot_omega_phase)
         # seta uw part
-        self.setw -= speccon1d.dim1sin_integrate_af(self.m,
+        self.seta -= speccon1d.dim1sin_integrate_af(self.m,
                      self.settlement_z_pairs,
                      self.tvals[self.settlement_z_pairs_tval_indexes],
                      self.v_E_Igamv_the[:self.neig ,self.settlement_z_pairs_tval_indexes],
-- 
2.43.0


From 373d554629662375b1b2dc09688d6821efb5ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 020/125] fix: air boundary flow term depends on dTa, not dTw

---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 71f24ab..d5fa0d0 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1107,7 +1107,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
                 theta_zero_indexes=topzero,
                 implementation=self.implementation))/ (self.mvref * self.ua_)
         #dTa * d/dZ(Da * du/dZ) component
-        if self.dTw!=0:
+        if self.dTa!=0:
             self.E_Igamv_the_BC -= (self.dTa *
                 speccon1d.dim1sin_E_Igamv_the_BC_D_aDf_linear(self.drn,
                     self.m_block, self.eigs, self.tvals, self.Igamv, self.Da,
-- 
2.43.0


From 064b963f000382d064f119b49b4aa5397b5f0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 021/125] fix: boundary terms are not dropped when all four
 boundary loads are given

---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index d5fa0d0..451955d 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -917,7 +917,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         if sum(v is None for v in[self.atop_vs_time,
                                   self.abot_vs_time,
                                   self.wtop_vs_time,
-                                  self.wbot_vs_time])!=0:
+                                  self.wbot_vs_time])!=4:
             self._make_E_Igamv_the_BC()
             self.E_Igamv_the += self.E_Igamv_the_BC
 
-- 
2.43.0


From e5c96ef0919f31e88a4f50c48cf63ce438886f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 022/125] fix: repeated eigenvalues (radial drainage with
 uniform ch) no longer turn into complex pairs in speccon1d_vr

---
 geotecha/speccon/speccon1d_vr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vr.py b/geotecha/speccon/speccon1d_vr.py
index 207475b..93dac35 100644
--- a/geotecha/speccon/speccon1d_vr.py
+++ b/geotecha/speccon/speccon1d_vr.py
@@ -26,6 +26,7 @@ from __future__ import division, print_function
 import geotecha.plotting.one_d #import MarkersDashesColors as MarkersDashesColors
 import time
 import numpy as np
+import scipy.linalg
 import matplotlib
 import matplotlib.pyplot as plt
 
@@ -809,9 +810,9 @@ class Speccon1dVR(speccon1d.Speccon1d):
 
         """
 
-        Igam_psi = np.dot(np.linalg.inv(self.gam), self.psi)
-
-        self.eigs, self.v = np.linalg.eig(Igam_psi)
+        #gam and psi are symmetric (gam positive definite): real eigenvalues
+        # even when they are repeated, e.g. uniform ch and radial drainage only
+        self.eigs, self.v = scipy.linalg.eigh(self.psi, self.gam)
 
         self.Igamv = np.linalg.inv(np.dot(self.gam, self.v))
         return
-- 
2.43.0


From 401396f61e3650c02c84d9145b015d9ff82c5563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 023/125] fix: input text cannot reach exec through locals(),
 compile(), pickles, lookfor or the numpy test runner

---
 geotecha/inputoutput/inputoutput.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 359bb27..1fbae29 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -305,10 +305,10 @@ class SyntaxChecker(ast.NodeVisitor):
         s=textwrap.dedent("""\
             #py27
             #__import__ abs all any apply bin #callable chr cmp
-            #coerce compile #debugfile #delattr #dir divmod #eval
+            #coerce #compile #debugfile #delattr #dir divmod #eval
             #evalsc #execfile filter format #getattr #globals hasattr
             #hash hex id input #intern isinstance issubclass iter
-            len locals map max min next oct #open #open_in_spyder
+            len #locals map max min next oct #open #open_in_spyder
             ord pow print range raw_input reduce #reload repr
             round #runfile #setattr sorted sum unichr #vars zip
 
@@ -447,8 +447,8 @@ class SyntaxChecker(ast.NodeVisitor):
             int_asbuffer interp intersect1d ipmt irr is_busday isclose
             iscomplex iscomplexobj isfortran isneginf isposinf isreal
             isrealobj isscalar issctype issubclass_ issubdtype issubsctype
-            iterable ix_ kaiser kron lexsort linspace load loads loadtxt
-            logspace lookfor mafromtxt mask_indices mat max maximum_sctype
+            iterable ix_ kaiser kron lexsort linspace #load #loads loadtxt
+            logspace #lookfor mafromtxt mask_indices mat max maximum_sctype
             may_share_memory mean median meshgrid min min_scalar_type
             mintypecode mirr msort nan_to_num nanargmax nanargmin nanmax
             nanmean nanmedian nanmin nanpercentile nanstd nansum nanvar
@@ -464,7 +464,7 @@ class SyntaxChecker(ast.NodeVisitor):
             set_string_function setbufsize setdiff1d seterr seterrcall
             seterrobj setxor1d shape show_config sinc size sometrue sort
             sort_complex source split squeeze std sum swapaxes take tensordot
-            test tile trace transpose trapz tri tril tril_indices
+            #test tile trace transpose trapz tri tril tril_indices
             tril_indices_from trim_zeros triu triu_indices triu_indices_from
             typename union1d unique unpackbits unravel_index unwrap vander
             var vdot vsplit vstack where who zeros zeros_like pi
-- 
2.43.0


From b4f8948508b3bd2238a21549e7b5522ad384f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 024/125] fix: echoed input can be run again (PolyLines in
 lists, long arrays, full precision, quotes in text)

---
 geotecha/inputoutput/inputoutput.py | 48 +++++++++++++----------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 1fbae29..0c4b511 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1566,36 +1566,30 @@ def string_of_object_attributes(obj, attributes=[], none_at_bottom=True,
 
     """
 
-    def f(v):
-        if isinstance(v, str):
-            return "'"
-        else:
-            return ""
-
-    if not numpy_array_prefix is None:
-        a = PrefixNumpyArrayString(numpy_array_prefix)
-    else:
-        a = PrefixNumpyArrayString('')
-    a.turn_on()
-
+    prefix = '' if numpy_array_prefix is None else numpy_array_prefix
 
+    def pprint(arr):
+        """array repr that can be pasted back, also when nested in a list"""
+        return prefix + np.array_repr(arr)
 
-    writer = ""
-    if none_at_bottom:
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
-            for v in attributes if not getattr(obj, v, None) is None])
-        writer+='\n\n\n'
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
-            for v in attributes if getattr(obj, v, None) is None])
-    else:
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
-            for v in attributes])
+    def f(v):
+        return '{0} = {1!r}'.format(v, getattr(obj, v, None))
 
-    writer+='\n'
-    a.turn_off()
+    np.set_string_function(pprint, True)
+    try:
+        with np.printoptions(threshold=sys.maxsize, precision=17):
+            writer = ""
+            if none_at_bottom:
+                writer += '\n'.join([f(v) for v in attributes
+                    if not getattr(obj, v, None) is None])
+                writer += '\n\n\n'
+                writer += '\n'.join([f(v) for v in attributes
+                    if getattr(obj, v, None) is None])
+            else:
+                writer += '\n'.join([f(v) for v in attributes])
+            writer += '\n'
+    finally:
+        np.set_string_function(None, True)
     return writer
 
 
-- 
2.43.0


From 0dd1ec6cb3e475462065931289a73ea82fcda195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 025/125] fix: output numbering copes with prefixes that
 contain regular expression characters

---
 geotecha/inputoutput/inputoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 0c4b511..65b7790 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1690,7 +1690,7 @@ def next_output_stem(prefix, path=None, start=1, inc=1, zfill=3,
         cwd = path
 
 
-    pattern = re.compile(prefix + "(?P<x>\d+).*")
+    pattern = re.compile(re.escape(prefix) + "(?P<x>\d+).*")
 
     nums = []
     for nm in os.listdir(cwd):
-- 
2.43.0


From 98727fc42062592916c21d03f33147f81ec42183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 026/125] fix: save a figure that is not in a list

---
 geotecha/inputoutput/inputoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 65b7790..5056df6 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1411,7 +1411,7 @@ class InputFileLoaderCheckerSaver(object):
 #        create_directory = getattr(self, 'create_directory', True)
 
 
-        for i,fig in enumerate(self._figures):
+        for i,fig in enumerate(figures):
             if len(fig.get_label()) > 0:
                 figname = fig.get_label()
             else:
-- 
2.43.0


From 032e36a8254ab3ed1a628a21ec3decf171d296ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 027/125] fix: saving grid data does not empty the caller's
 dictionaries

---
 geotecha/inputoutput/inputoutput.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 5056df6..badd5ca 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1835,13 +1835,14 @@ def save_grid_data_to_file(data_dicts, directory=None, file_stem='out_000',
 
 
     for d in data_dicts:
+        d = dict(d) # leave the caller's dict as it is
         data = d.pop('data', None)
         name = d.pop('name',"")
         row_labels = d.pop('row_labels', None)
         row_labels_label = d.pop('row_labels_label', 'item')
         column_labels = d.pop('column_labels', None)
         header = d.pop('header', None)
-        df_kwargs = d.pop('df_kwargs',{})
+        df_kwargs = dict(d.pop('df_kwargs',{}))
 
         if data is None:
             continue
-- 
2.43.0


From 12053fb81b8da3568b7fdcddbfa20afc2a747aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 028/125] fix: echoed arrays keep every digit, however small
 the numbers

---
 geotecha/inputoutput/inputoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index badd5ca..e9261fa 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1577,7 +1577,7 @@ def string_of_object_attributes(obj, attributes=[], none_at_bottom=True,
 
     np.set_string_function(pprint, True)
     try:
-        with np.printoptions(threshold=sys.maxsize, precision=17):
+        with np.printoptions(threshold=sys.maxsize, floatmode='unique'):
             writer = ""
             if none_at_bottom:
                 writer += '\n'.join([f(v) for v in attributes
-- 
2.43.0


From 5753cda409ecdd959f84406d845593bf5c01fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 029/125] fix: scalar EPUS keeps the volume of a pore group at
 the suction it dried at, like the compiled version

---
 geotecha/constitutive_models/epus.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index b1a5900..d97ce65 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -593,8 +593,7 @@ class EPUS(object):
                     #For pores that have AEV>ss_new - filled with water and subject to the same stress
                     if Stress + ss_new > f.YieldSt[i]:
                         f.YieldSt[i] = Stress + ss_new
-
-                f.RVC[i] = Changevolume(f.RV[i], f.YieldSt[i], Stress + ss_new, f.Ccp[i], f.Csp[i])
+                    f.RVC[i] = Changevolume(f.RV[i], f.YieldSt[i], Stress + ss_new, f.Ccp[i], f.Csp[i])
 
             else:
                 # Do not care about the pore that is already dried
-- 
2.43.0


From 9ecc51b7cc0b0aa5db58d508c23f7a953ff43e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 030/125] fix: scalar EPUS wetting uses the updated reference
 saturation, like the compiled version

---
 geotecha/constitutive_models/epus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index d97ce65..b045360 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -615,7 +615,6 @@ class EPUS(object):
         f = self.f
         Stress = self.Stress
         Assumption = self.Assumption
-        RefSr = self.RefSr
         pm = self.pm
 
         if self.Curveon==1:
@@ -633,6 +632,7 @@ class EPUS(object):
         elif self.Curveon==3:
             self.Curveon = 3
             self.RefSr = RfSr_value(3, ss_new)
+        RefSr = self.RefSr
 
         for i in range(f.Npoint):
             s = 10 ** f.WEV[i]
-- 
2.43.0


From 9dc5333c18059fd8343cd618bb5bedab9633577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 031/125] fix: EPUS reference saturation lookup stays inside
 its initialised arrays at the largest suction, same interval in both versions

---
 geotecha/constitutive_models/epus.py      |  4 ++--
 geotecha/constitutive_models/epus_ext.f95 | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index b045360..49e1854 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -811,9 +811,9 @@ class EPUS(object):
         MinSuction = self.MinSuction
 
         if curvetype == 1:
-            return self.Srdry[int((log10(ssvalue) - MinSuction) / ((MaxSuction - MinSuction) / (NumSr - 1)))]
+            return self.Srdry[min(int((log10(ssvalue) - MinSuction) / ((MaxSuction - MinSuction) / NumSr)), NumSr - 1)]
         if curvetype == 3:
-            return self.Srwet[int((log10(ssvalue) - MinSuction) / ((MaxSuction - MinSuction) / (NumSr - 1)))]
+            return self.Srwet[min(int((log10(ssvalue) - MinSuction) / ((MaxSuction - MinSuction) / NumSr)), NumSr - 1)]
 #'A-88
 
     def _Calresults_scalar(self):
diff --git a/geotecha/constitutive_models/epus_ext.f95 b/geotecha/constitutive_models/epus_ext.f95
index 7f8152c..ac73d5c 100644
--- a/geotecha/constitutive_models/epus_ext.f95
+++ b/geotecha/constitutive_models/epus_ext.f95
@@ -214,6 +214,8 @@
 
             ALLOCATE(SrDry(1:NumSr))
             ALLOCATE(SrWet(1:NumSr))
+            SrDry = 0.0_DP
+            SrWet = 0.0_DP
           END SUBROUTINE initialize_SrDry_SrWet
 
          SUBROUTINE initialize_datapoint()!(npts_)
@@ -786,12 +788,12 @@
           !'curvetype=1: drying; = 2: scanning; =3: wetting
 
           If (curvetype .EQ. 1) Then
-            RfSr_value = Srdry(int((Log10(ssvalue) - MinSuction) &
-                / ((MaxSuction - MinSuction) / NumSr)) + 1)
+            RfSr_value = Srdry(min(int((Log10(ssvalue) - MinSuction) &
+                / ((MaxSuction - MinSuction) / NumSr)) + 1, NumSr))
           End If
           If (curvetype .EQ. 3) Then
-            RfSr_value = Srwet(int((Log10(ssvalue) - MinSuction) &
-                / ((MaxSuction - MinSuction) / NumSr)) + 1)
+            RfSr_value = Srwet(min(int((Log10(ssvalue) - MinSuction) &
+                / ((MaxSuction - MinSuction) / NumSr)) + 1, NumSr))
           End If
         !'A-88
 
-- 
2.43.0


From 40c3d4a2943200f0565c276227984f788060ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 032/125] fix: default step names in EPUS StressPath

---
 geotecha/constitutive_models/epus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 49e1854..de6ab51 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1260,12 +1260,12 @@ class StressPath(object):
             else:
                 if self.ist[i]:
                     name = ("Step #{:s}, stress change to "
-                            "{:g} kPa.".format(str[i].zfill(3),
+                            "{:g} kPa.".format(str(i).zfill(3),
                                           self.vl[i]))
 
                 else:
                     name = ("Step #{:s}, suction change to "
-                            "{:g} kPa.".format(str[i].zfill(3),
+                            "{:g} kPa.".format(str(i).zfill(3),
                                           self.vl[i]))
                 self.name.append(name)
 
-- 
2.43.0


From db380b65345e5a380c7a9d3c993fc62219041051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 033/125] fix: EPUS profile refinement uses the Npoint and npp
 factors

---
 geotecha/constitutive_models/epus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index de6ab51..10adc4d 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1664,8 +1664,8 @@ class EpusProfile(object):
                                       self.npp_refine):
 
             self._nz = int(fnz * self.nz)
-            self._Npoint = int(fnz * self.Npoint)
-            self._npp = int(fnz * self.npp)
+            self._Npoint = int(fNpoint * self.Npoint)
+            self._npp = int(fnpp * self.npp)
 
 
             new_profile = self._blank_profile(nz=self._nz)
-- 
2.43.0


From 62cc50c51ab5ee8680dadaba8e5795e9a201d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 034/125] fix: EPUS profile reports when the maximum number of
 iterations is reached

---
 geotecha/constitutive_models/epus.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 10adc4d..4f5e11e 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1695,9 +1695,7 @@ class EpusProfile(object):
                 if np.allclose(old_stress, self.profile.st,
                                atol=self.atol, rtol=self.rtol):
                     break
-
-
-            if j>=self.max_iter:
+            else:
                 raise ValueError("Maximum iterations reached while nz={}".format(self._nz))
             self.niter.append(j+1)
 
-- 
2.43.0


From 83689c8127c9d2a007026e957bfc3613a98dec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 035/125] fix: EPUS profile compressibility where the suction
 change just reaches zero pore pressure

---
 geotecha/constitutive_models/epus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 4f5e11e..4840062 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1897,8 +1897,9 @@ class EpusProfile(object):
                     #apply dpsi-uw to suction
                     stp.append(dict(ist=True, npp=self._npp, vl=st+uw,
                                     name="3. uw decrease--> partial stress increase"))
-                    stp.append(dict(ist=False, npp=self._npp, vl=dpsi-uw,
-                                    name="3. uw decrease--> partial suction increase"))
+                    if dpsi - uw > (10 ** self.epus_object.MinSuction):
+                        stp.append(dict(ist=False, npp=self._npp, vl=dpsi-uw,
+                                        name="3. uw decrease--> partial suction increase"))
 
 
 
-- 
2.43.0


From 1482bf6ed56869c7e21f3cf123cf69e71cc43f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 036/125] fix: input text cannot import modules through
 numpy.info

---
 geotecha/inputoutput/inputoutput.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index e9261fa..7269607 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -443,7 +443,8 @@ class SyntaxChecker(ast.NodeVisitor):
             full full_like fv genfromtxt get_array_wrap get_include
             get_printoptions getbuffer getbufsize geterr geterrcall geterrobj
             gradient hamming hanning histogram histogram2d histogramdd hsplit
-            hstack i0 identity imag in1d indices info inner insert
+            hstack i0 identity imag in1d indices #info
+            inner insert
             int_asbuffer interp intersect1d ipmt irr is_busday isclose
             iscomplex iscomplexobj isfortran isneginf isposinf isreal
             isrealobj isscalar issctype issubclass_ issubdtype issubsctype
-- 
2.43.0


From f953140ededc1afe6e23c2999cb29bd518603d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 037/125] fix: pore pressure times tpor are used in
 cosenzaandkorosak2014

---
 geotecha/consolidation/cosenzaandkorosak2014.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index 8065f0c..9a58a84 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -165,7 +165,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     if tpor is None:
         tpor=t
     else:
-        tpor = np.atleast_1d(t)
+        tpor = np.atleast_1d(tpor)
 
 
     M = ((2 * np.arange(nterms) + 1) * np.pi)
@@ -187,7 +187,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     for j, lam in enumerate(M):
         Bn[:, j] = np.array(a(tpor, args=(v, theta, M[j])), dtype=float)
 
-    if np.allclose(tpor, t): #reuse Bn for Doc
+    if np.array_equal(tpor, t): #reuse Bn for Doc
         Bn_ = Bn.copy()
 
     Bn = Bn[np.newaxis, :, :]
@@ -197,7 +197,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
 
     #degree of consolidation
     An = 2*2**2/M[np.newaxis, :]**2
-    if np.allclose(tpor, t):
+    if np.array_equal(tpor, t):
         Bn = Bn_
     else:
         Bn = np.zeros((len(t), nterms), dtype=float)
-- 
2.43.0


From 60c8559e8e3804945ba4a6d1179055901022a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 038/125] fix: cosenzaandkorosak2014 uses the eigenvalues of
 the drainage path length and reduces to Terzaghi without creep

---
 geotecha/consolidation/cosenzaandkorosak2014.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index 9a58a84..110f191 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -168,7 +168,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
         tpor = np.atleast_1d(tpor)
 
 
-    M = ((2 * np.arange(nterms) + 1) * np.pi)
+    M = ((2 * np.arange(nterms) + 1) / 2 * np.pi)
 
 #    an = 2 / M
 
@@ -184,8 +184,8 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     a = Talbot(F, n=24, shift=0.0)
 
     Bn = np.zeros((len(tpor), nterms), dtype=float)
-    for j, lam in enumerate(M):
-        Bn[:, j] = np.array(a(tpor, args=(v, theta, M[j])), dtype=float)
+    for j, lam in enumerate(lamda_n):
+        Bn[:, j] = np.array(a(tpor, args=(v, theta, lam)), dtype=float)
 
     if np.array_equal(tpor, t): #reuse Bn for Doc
         Bn_ = Bn.copy()
@@ -196,13 +196,13 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     por = np.sum(An*Bn, axis=2)*ui
 
     #degree of consolidation
-    An = 2*2**2/M[np.newaxis, :]**2
+    An = 2/M[np.newaxis, :]**2
     if np.array_equal(tpor, t):
         Bn = Bn_
     else:
         Bn = np.zeros((len(t), nterms), dtype=float)
-        for j, lam in enumerate(M):
-            Bn[:, j] = np.array(a(t, args=(v, theta, M[j])), dtype=float)
+        for j, lam in enumerate(lamda_n):
+            Bn[:, j] = np.array(a(t, args=(v, theta, lam)), dtype=float)
 
     doc = 1 - np.sum(An*Bn, axis = 1)
 
-- 
2.43.0


From b255fea1c5fe53a7526b333cbd95c9f89f9bd640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 039/125] fix: u_piecewise_linear at the drain when the first
 two radii coincide

---
 geotecha/consolidation/smear_zones.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotecha/consolidation/smear_zones.py b/geotecha/consolidation/smear_zones.py
index 4a80d35..952fd25 100644
--- a/geotecha/consolidation/smear_zones.py
+++ b/geotecha/consolidation/smear_zones.py
@@ -2514,7 +2514,9 @@ def u_piecewise_linear(s, kap, si, uavg=1, uw=0, muw=0, n=None, kap_m=None):
 
 
         #phi
-        if np.isclose(kap[i-1]/kap[i], 1.0):
+        if np.isclose(s[i-1], s[i]):
+            phi = 0
+        elif np.isclose(kap[i-1]/kap[i], 1.0):
             phi = log(si[ii]/s[i-1]) - (si[ii]**2 - s[i-1]**2)/(2 * n**2)
         elif np.isclose(kap[i-1]/kap[i], s[i]/s[i-1]):
             phi = (si[ii]-s[i-1]) * (n**2 - s[i-1]*si[ii]) / (si[ii] * n**2)
-- 
2.43.0


From fe158c145373b356023fb9daf3dc3922d72b62aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 040/125] fix: mu_linear accepts a smear zone that reaches the
 influence radius

---
 geotecha/consolidation/smear_zones.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/smear_zones.py b/geotecha/consolidation/smear_zones.py
index 952fd25..35adac2 100644
--- a/geotecha/consolidation/smear_zones.py
+++ b/geotecha/consolidation/smear_zones.py
@@ -515,7 +515,7 @@ def mu_linear(n, s, kap):
         raise ValueError('kap must be greater than 0. You have kap = '
                 '{}'.format(', '.join([str(v) for v in np.atleast_1d(kap)])))
 
-    if np.any(s>=n):
+    if np.any(s>n):
         raise ValueError('s must be less than n. You have s = '
                 '{} and n = {}'.format(
                 ', '.join([str(v) for v in np.atleast_1d(s)]),
-- 
2.43.0


From eab526fc9125171ce330961a267e5390dbab3b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 041/125] fix: non-Darcian array calculations with more than 21
 series terms

---
 geotecha/consolidation/smear_zones.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/smear_zones.py b/geotecha/consolidation/smear_zones.py
index 35adac2..16bd1fc 100644
--- a/geotecha/consolidation/smear_zones.py
+++ b/geotecha/consolidation/smear_zones.py
@@ -2888,7 +2888,7 @@ def _g(r_rw, re_rw, nflow=1.0001, nterms=20):
         for j in range(nterms):
 
             term2 = special.poch(-1.0 / nflow, j)
-            term3 = np.math.factorial(j)
+            term3 = special.factorial(j)
             term4 = (2 * j + 1) * nflow - 1
             term5 = (r_rw / re_rw)**(2 * j)
             g += term2 / term3 / term4 * term5
@@ -3056,7 +3056,7 @@ def _gbar(r_rw, re_rw, nflow=1.0001, nterms=20):
         for j in range(nterms):
 
             term2 = special.poch(-1.0 / nflow, j)
-            term3 = np.math.factorial(j)
+            term3 = special.factorial(j)
             term4 = (2 * j + 1) * nflow - 1
             term4a = (2 * j + 3) * nflow - 1
             term5 = (r_rw/re_rw)**(2*j)
-- 
2.43.0


From a11c6ecbc978032b880c045175302dd96efcf0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 042/125] fix: mu_linear loses precision when kap is close to 1

---
 geotecha/consolidation/smear_zones.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/geotecha/consolidation/smear_zones.py b/geotecha/consolidation/smear_zones.py
index 16bd1fc..a9734b1 100644
--- a/geotecha/consolidation/smear_zones.py
+++ b/geotecha/consolidation/smear_zones.py
@@ -500,6 +500,21 @@ def mu_linear(n, s, kap):
         mu = term1 * (term2 + term3 + term4)
         return mu
 
+    def mu_kap_near_1(n, s, kap):
+        """mu for when kap is close to 1
+
+        The closed form loses all precision so integrate (Gauss-Legendre in
+        ln(r/rw)) the difference from the ideal drain"""
+
+        x, w = np.polynomial.legendre.leggauss(20)
+        x, w = x[:, np.newaxis], w[:, np.newaxis]
+        r = s ** ((x + 1) / 2)
+        A = (kap - 1) / (s - 1)
+        extra = (kap - 1 - A * (r - 1)) / (1 + A * (r - 1))
+        extra = np.sum(w * extra * (n ** 2 - r ** 2) ** 2, axis=0)
+        mu = mu_ideal(n) + extra * log(s) / 2 / n ** 2 / (n ** 2 - 1)
+        return mu
+
     n = np.asarray(n)
     s = np.asarray(s)
     kap = np.asarray(kap)
@@ -541,10 +556,13 @@ def mu_linear(n, s, kap):
 
     ideal = np.isclose(s, 1) | np.isclose(kap, 1)
     s_eq_kap = np.isclose(s, kap) & ~ideal
-    s_neq_kap = ~np.isclose(s, kap) & ~ideal
+    kap_near_1 = (np.abs(kap - 1) < np.minimum(0.5, 0.02 * (s - 1))) & ~ideal
+    s_neq_kap = ~(ideal | s_eq_kap | kap_near_1)
 
 
     mu[ideal] = mu_ideal(n[ideal])
+    mu[kap_near_1] = mu_kap_near_1(n[kap_near_1], s[kap_near_1],
+                                   kap[kap_near_1])
     mu[s_eq_kap] = mu_s_eq_kap(n[s_eq_kap], s[s_eq_kap])
     mu[s_neq_kap] = mu_s_neq_kap(n[s_neq_kap], s[s_neq_kap], kap[s_neq_kap])
 
-- 
2.43.0


From 1f6955d162e4f9425805a98ce9a43d5c6f313180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 043/125] fix: mu_piecewise_linear loses precision in nearly
 uniform segments

---
 geotecha/consolidation/smear_zones.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geotecha/consolidation/smear_zones.py b/geotecha/consolidation/smear_zones.py
index a9734b1..28c7bd7 100644
--- a/geotecha/consolidation/smear_zones.py
+++ b/geotecha/consolidation/smear_zones.py
@@ -1131,6 +1131,15 @@ def mu_piecewise_linear(s, kap, n=None, kap_m=None):
         elif np.isclose(kap[i-1] / kap[i], s[i] / s[i - 1]):
             term1 = ((s[i] - s[i - 1]) ** 2 / 3 / n ** 4 * (3 * n ** 2 -
                     s[i - 1] ** 2 - 2 * s[i - 1] * s[i]))
+        elif abs(kap[i-1] / kap[i] - 1) < min(0.5, 0.02 * (s[i] - s[i - 1])):
+            # closed form loses all precision so integrate (Gauss-Legendre
+            # in ln(r/rw))
+            x, w = np.polynomial.legendre.leggauss(20)
+            r = s[i - 1] * (s[i] / s[i - 1]) ** ((x + 1) / 2)
+            A = (kap[i-1] / kap[i] - 1) / (s[i] - s[i - 1])
+            term1 = np.sum(w * (n ** 2 - r ** 2) * (s[i] ** 2 - r ** 2)
+                / (1 + A * (r - s[i - 1])))
+            term1 *= log(s[i] / s[i - 1]) / 2 / n ** 4
         else:
             A = (kap[i-1] / kap[i] - 1) / (s[i] - s[i - 1])
             B = (s[i] - kap[i-1] / kap[i] * s[i - 1]) / (s[i] - s[i - 1])
-- 
2.43.0


From f9a5abc2c7c8997b77b5f0d18ea6cd8c1bce62eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 044/125] fix: XieAndLeo2004 stresses use the surcharge of the
 object

---
 geotecha/consolidation/xieandleo2004.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index 09e72c3..1b52dfa 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -495,7 +495,7 @@ class XieAndLeo2004(object):
         u = self.u_PTIB(a,t)
         sig_0 = self.initial_effective_stress(a)[:, None]
 
-        sig_ = sig_0 + qu - u
+        sig_ = sig_0 + self.qu - u
 
         return sig_
 
@@ -519,7 +519,7 @@ class XieAndLeo2004(object):
         u = self.u_PTPB(a,t)
         sig_0 = self.initial_effective_stress(a)[:, None]
 
-        sig_ = sig_0 + qu - u
+        sig_ = sig_0 + self.qu - u
 
         return sig_
 
@@ -546,7 +546,7 @@ class XieAndLeo2004(object):
         sig_0 = self.initial_effective_stress(a)[:, None]
         a = a[:, None]
 
-        sig = sig_0 + qu + gamw * (Hw + a + S)
+        sig = sig_0 + self.qu + gamw * (Hw + a + S)
 
         return sig
 
@@ -573,7 +573,7 @@ class XieAndLeo2004(object):
         sig_0 = self.initial_effective_stress(a)[:, None]
         a = a[:, None]
 
-        sig = sig_0 + qu + gamw * (Hw + a + S)
+        sig = sig_0 + self.qu + gamw * (Hw + a + S)
 
         return sig
 
-- 
2.43.0


From 38cb320d6d977b8d241789c4c4c86a6e5c7158fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 045/125] fix: XieAndLeo2004 fluid velocities conserve volume
 and follow Darcy's law

---
 geotecha/consolidation/xieandleo2004.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index 1b52dfa..ff551cb 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -792,7 +792,7 @@ class XieAndLeo2004(object):
         f = np.cos(M * a) * np.exp(-M**2 * Tv)
         f = np.sum(f, axis=2)
         f *= 1 - np.exp(-mvl * qu)
-        f *= 2 * cv0 / H
+        f *= -2 * cv0 / H
         f /=e
 
         return f
@@ -837,7 +837,7 @@ class XieAndLeo2004(object):
         f2 = (1 + np.cos(2 * M * a)) * np.exp(-4 * M**2 * Tv)
         f2 = np.sum(f2, axis=2)
         f2 *= 1 - np.exp(-mvl * qu)
-        f2 *= 2 * cv0/H
+        f2 *= 4 * cv0/H
         f2 /=e
 
         return f1-f2
-- 
2.43.0


From 518ae7513db1825132106182e4b92f972ce0e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 046/125] fix: find_n_roots keeps each root inside the interval
 with the sign change

---
 geotecha/mathematics/root_finding.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/geotecha/mathematics/root_finding.py b/geotecha/mathematics/root_finding.py
index c74598e..973cccf 100644
--- a/geotecha/mathematics/root_finding.py
+++ b/geotecha/mathematics/root_finding.py
@@ -108,6 +108,7 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
 
     root_number = 0
     iter_count = 0
+    iter_same = 0
 
     x00 = x0_zero #starting point for current root
     dx0 = dx_zero #starting increment for current root
@@ -164,7 +165,14 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
 
             xr, = scipy.optimize.fsolve(func, xguess, args, **fsolve_kwargs)
 
-            if root_number==0:
+            if not min(x0, x1) <= xr <= max(x0, x1):
+                #fsolve strayed away from the interval with the sign change
+                if y0==0 or y1==0:
+                    xr = x0 if y0==0 else x1
+                else:
+                    xr = scipy.optimize.brentq(func, x0, x1, args)
+
+            if root_number > 0:
                 if np.allclose(xr, roots[root_number-1], atol=atol, rtol=rtol):
                     #found same root
                     if debug:
@@ -187,6 +195,9 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
                                           [roots[v] for v in range(root_number)]))
                     iter_count = iter_count-2
                     dx*=0.2
+                    #carry on beyond the root already found
+                    x0 = x1
+                    y0 = y1
                     continue
             if debug:
                 print(root_number, iter_count, xr, func(xr, *args), 'found root')
-- 
2.43.0


From 97bf4cb732a994a48df19e4f25154739869f96a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 047/125] fix: SchiffmanAndStein1970 impeded drainage
 boundaries

---
 geotecha/consolidation/schiffmanandstein1970.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 13f3c4a..fe368b1 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -246,10 +246,10 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             self.atop = 1
             self.btop = 0
         elif self.bctop == 3:
-            self.atop = h[0]
-            self.btop = ktop * h[0] / (kv[0] * htop)
+            self.atop = self.h[0]
+            self.btop = self.ktop * self.h[0] / (self.kv[0] * self.htop)
         else:
-            raise ValueError('bctop must be 0, 1, or 2. you have bctop = {}'.foramt(self.bctop))
+            raise ValueError('bctop must be 0, 1, or 3. you have bctop = {}'.format(self.bctop))
 
         if self.bcbot == 0:
             self.abot = 0
@@ -258,10 +258,10 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             self.abot = 1
             self.bbot = 0
         elif self.bcbot == 3:
-            self.abot = h[-1]
-            self.bbot = kbot * h[-1] / (kv[-1] * hbot)
+            self.abot = self.h[-1]
+            self.bbot = self.kbot * self.h[-1] / (self.kv[-1] * self.hbot)
         else:
-            raise ValueError('bctop must be 0, 1, or 2. you have bctop = {}'.format(self.bctop))
+            raise ValueError('bcbot must be 0, 1, or 3. you have bcbot = {}'.format(self.bcbot))
 
         self.BC = np.zeros((2 * self.nlayers, 2* self.nlayers), dtype=float)
 
-- 
2.43.0


From 02fa38e328294695190a67f4f7e2010c95839e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 048/125] fix: SchiffmanAndStein1970 misses the first
 eigenvalues of thin or multi-layer soils

---
 geotecha/consolidation/schiffmanandstein1970.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index fe368b1..502065f 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -443,9 +443,9 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         """
 
-        H = self.zlayer[-1]
-
-        x0 = 0.1 / H**2
+        #beta0 * 'thickness seen by beta0' is the phase through all layers:
+        # start well before the first root whatever the units
+        x0 = 0.001 / np.sum(self.h * np.sqrt(self.cv[0] / self.cv))
         self._beta0 = np.empty(self.n, dtype=float)
 
         self._beta0[:] = find_n_roots(self._characteristic_eqn, n=self.n,
-- 
2.43.0


From 59dc846be340aad65cf6659e18e4dd1f710eaff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 049/125] fix: SchiffmanAndStein1970 mode shapes where the last
 coefficient is zero

---
 geotecha/consolidation/schiffmanandstein1970.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 502065f..b3ce5b7 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -551,18 +551,16 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         self._beta = np.zeros((self.n, self.nlayers), dtype=float)
 
-        self._Cm[:, -1] = 1.0
         for i, beta in enumerate(self._beta0):
             self._beta[i, :] = self._make_BC(beta)
-            self.BC[np.abs(self.BC)<1e-10]=0
             if self._debug and i==0:
                 print('BC for beta0')
                 print(self.BC)
-            b = -self.BC[:-1, -1]
-            a = self.BC[:-1, :-1]
-            x = np.linalg.solve(a, b)
+            #non-trivial solution of BC * x = 0; any one coefficient may be zero
+            a = self.BC / np.linalg.norm(self.BC, axis=1)[:, np.newaxis]
+            x = np.linalg.svd(a)[2][-1, :]
             self._Bm[i, :] = x[::2]
-            self._Cm[i, :-1] = x[1::2]
+            self._Cm[i, :] = x[1::2]
 
     def _Tm_integrations(self):
         """symbolic integration of the Tm coefficient
-- 
2.43.0


From 1d8b79783950fb06e750d9afe32481aedb11850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 050/125] fix: SchiffmanAndStein1970 settlement at the instant
 of a step load

---
 geotecha/consolidation/schiffmanandstein1970.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index b3ce5b7..138cc64 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -725,7 +725,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         for j, t in enumerate(self.t):
             settle=0
             avp = 0
-            q = pwise.pinterp_x_y(self.surcharge_vs_time, t)[0]
+            q = pwise.pinterp_x_y(self.surcharge_vs_time, t, choose_max=True)[0]
             settle = np.sum(self.mv * self.h) * q
 
 
@@ -760,7 +760,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         """Calculate pore pressure at depth and time"""
 
         if self.tpor is None:
-            self.tpor==self.t
+            self.tpor = self.t
 
         self.por = np.zeros((len(self.z), len(self.tpor)), dtype=float)
 
-- 
2.43.0


From 91c113c95354074e6e7a9de4e73796b70370fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 051/125] fix: SchiffmanAndStein1970 saves settlement in its
 settlement table

---
 geotecha/consolidation/schiffmanandstein1970.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 138cc64..ac8d652 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -419,7 +419,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
             labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
             d = {'name': '_data_set',
-                 'data': self.avp.T,
+                 'data': self.set.T,
                  'row_labels': self.t,
                  'row_labels_label': 'Time',
                  'column_labels': labels,
-- 
2.43.0


From 33e6531526542a61934ea6745cbebd9c9528c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 052/125] fix: NogamiAndLi2003 saves settlement in its
 settlement table

---
 geotecha/consolidation/nogamiandli2003.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 327ee9d..8ff8583 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -743,7 +743,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
             labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
             d = {'name': '_data_set',
-                 'data': self.avp.T,
+                 'data': self.set.T,
                  'row_labels': self.t,
                  'row_labels_label': 'Time',
                  'column_labels': labels,
-- 
2.43.0


From 75af8b5659571d2af2782b7db92aa4cc30f3b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 053/125] fix: NogamiAndLi2003 settlement at the instant of a
 step load

---
 geotecha/consolidation/nogamiandli2003.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 8ff8583..7e908fa 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -983,7 +983,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                     alp = self._alp[i, j]
                     Tm = self._calc_Tm(alp, t)
 
-                    load = pwise.pinterp_x_y(self.surcharge_vs_time, t)
+                    load = pwise.pinterp_x_y(self.surcharge_vs_time, t, choose_max=True)
                     for layer, h in enumerate(self.h):
 #                        layer = z_in_layer[k]
 #                        zlay = z - (self.zlayer[layer] - self.h[layer])
-- 
2.43.0


From d7ba8a83799e86617ebf04d375f5bb56bff2975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 054/125] fix: add_subplot with a text position is refused by
 current matplotlib

---
 geotecha/beam_on_foundation/specbeam.py         | 4 ++--
 geotecha/consolidation/nogamiandli2003.py       | 2 +-
 geotecha/consolidation/schiffmanandstein1970.py | 2 +-
 geotecha/consolidation/shanetal2012.py          | 2 +-
 geotecha/consolidation/zhuandyin2012.py         | 6 +++---
 geotecha/constitutive_models/swcc.py            | 8 ++++----
 geotecha/mathematics/hankel.py                  | 2 +-
 geotecha/speccon/speccon1d_unsat_interactive.py | 6 +++---
 8 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index c98baa9..503e39a 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -7645,7 +7645,7 @@ def transition_zones1(
         fig4, ax4 = plt.subplots() # deflection vs time at point
 
     fig5 = plt.figure(figsize=(3.54, 3.54))
-    ax5 = fig5.add_subplot('111')
+    ax5 = fig5.add_subplot(111)
 
 
     pdict = OrderedDict(
@@ -8099,7 +8099,7 @@ def transition_zones2(animateme=False,
 
 
     fig6 = plt.figure(figsize=(3.54,3.54))
-    ax6 = fig6.add_subplot('111')
+    ax6 = fig6.add_subplot(111)
 
     pdict = OrderedDict(
                 E = 6.998*1e9, #Pa
diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 7e908fa..5a9bc0b 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -1012,7 +1012,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         """
 
         fig = plt.figure(figsize=(40, 8))
-        ax = fig.add_subplot('111')
+        ax = fig.add_subplot(111)
         for i in range(self.nh):
             s = self._sn[i]
 #            amin=self._alp_min()[i]
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index ac8d652..5ac4dd4 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -534,7 +534,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             y[i]=self._characteristic_eqn(x[i])
 #        plt.gcf().clear()
         fig = plt.figure(figsize=(30,5))
-        ax = fig.add_subplot('111')
+        ax = fig.add_subplot(111)
         ax.plot(x ,y,'-', marker='.', markersize=3)
         ax.plot(self._beta0, np.zeros_like(self._beta0),'ro', markersize=6)
         ax.set_ylabel('det(A)')
diff --git a/geotecha/consolidation/shanetal2012.py b/geotecha/consolidation/shanetal2012.py
index e3e5cc1..6d53f06 100644
--- a/geotecha/consolidation/shanetal2012.py
+++ b/geotecha/consolidation/shanetal2012.py
@@ -571,7 +571,7 @@ if __name__ == '__main__':
 
 
     fig = plt.figure()
-    ax=fig.add_subplot('111')
+    ax=fig.add_subplot(111)
     ax.plot(t, porw[len(z)//2], 'bs', ls='-', ms=3,label='water')
     ax.plot(t, pora[len(z)//2], 'g*', ls='-', ms=3,label='air')
     ax.set_xlabel('Time')
diff --git a/geotecha/consolidation/zhuandyin2012.py b/geotecha/consolidation/zhuandyin2012.py
index 04f2b37..c379670 100644
--- a/geotecha/consolidation/zhuandyin2012.py
+++ b/geotecha/consolidation/zhuandyin2012.py
@@ -170,7 +170,7 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
         etam = find_n_roots(Zmu, args=(nu, nu, b), n = nterms, p=1.01)
         if plot_eigs:
             fig=plt.figure(figsize=(20,5))
-            ax = fig.add_subplot('111')
+            ax = fig.add_subplot(111)
             x = np.linspace(0.01,etam[-1],1000)
             y = Zmu(x, nu, nu, b)
             ax.plot(x, y, marker='.', markersize=3, ls='-')
@@ -185,7 +185,7 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
         etam = find_n_roots(drn1root, args=(nu, nu, b, p, n), n = nterms, p=1.01)
         if plot_eigs:
             fig=plt.figure(figsize=(20,5))
-            ax = fig.add_subplot('111')
+            ax = fig.add_subplot(111)
             x = np.linspace(0.01,etam[-1],1000)
             y = drn1root(x, nu, nu, b, p, n)
             ax.plot(x, y, marker='.', markersize=3, ls='-')
@@ -346,7 +346,7 @@ if __name__ == '__main__':
 #        print('kv', repr(kv))
 #        print('mv', repr(mv))
         fig=plt.figure()
-        ax= fig.add_subplot('111')
+        ax= fig.add_subplot(111)
         ax.plot(kv, x, label='kv', ls='-')
         ax.plot(mv, x, label='mv', ls='-')
         ax.legend()
diff --git a/geotecha/constitutive_models/swcc.py b/geotecha/constitutive_models/swcc.py
index 56ab512..6e491cc 100644
--- a/geotecha/constitutive_models/swcc.py
+++ b/geotecha/constitutive_models/swcc.py
@@ -961,7 +961,7 @@ if __name__ == "__main__":
         k = b.k_from_psi(x, aev=1)
 
         fig = plt.figure()
-        ax = fig.add_subplot('211')
+        ax = fig.add_subplot(211)
         ax.plot(x, y)
         ax.set_xlabel('$psi$')
         ax.set_ylabel('w')
@@ -969,7 +969,7 @@ if __name__ == "__main__":
         ax.grid(which='major', linestyle='-')
         ax.grid(which='minor', linestyle='--')
 
-        ax = fig.add_subplot('212', sharex=ax)
+        ax = fig.add_subplot(212, sharex=ax)
         ax.plot(x, k)
         ax.set_xlabel('$psi$')
         ax.set_ylabel('$k/k_{sat}$')
@@ -1020,7 +1020,7 @@ if __name__ == "__main__":
         k = b.k_from_psi(x, aev=1)
 
         fig = plt.figure()
-        ax = fig.add_subplot('211')
+        ax = fig.add_subplot(211)
         ax.plot(x, y)
         ax.set_xlabel('$psi$')
         ax.set_ylabel('w')
@@ -1028,7 +1028,7 @@ if __name__ == "__main__":
         ax.grid(which='major', linestyle='-')
         ax.grid(which='minor', linestyle='--')
 
-        ax = fig.add_subplot('212', sharex=ax)
+        ax = fig.add_subplot(212, sharex=ax)
         ax.plot(x, k)
         ax.set_xlabel('$psi$')
         ax.set_ylabel('$k/k_{sat}$')
diff --git a/geotecha/mathematics/hankel.py b/geotecha/mathematics/hankel.py
index 63f36f6..68c3de5 100644
--- a/geotecha/mathematics/hankel.py
+++ b/geotecha/mathematics/hankel.py
@@ -239,7 +239,7 @@ class HankelTransform(object):
         y = integrand(x, *self.args)
 
         fig = plt.figure()
-        ax = fig.add_subplot('111')
+        ax = fig.add_subplot(111)
         ax.plot(x,y, '-')
         ax.plot(zeros, np.zeros_like(zeros), 'ro', ms=5)
 #        ax.plot(x, x*jn(self.order, r*x), label='rJn(r*s)')
diff --git a/geotecha/speccon/speccon1d_unsat_interactive.py b/geotecha/speccon/speccon1d_unsat_interactive.py
index cce28d5..1459f87 100644
--- a/geotecha/speccon/speccon1d_unsat_interactive.py
+++ b/geotecha/speccon/speccon1d_unsat_interactive.py
@@ -211,7 +211,7 @@ figure_ext='.png'
     if 1:
         #only use this if there is one z interval
         fig = plt.figure()
-        ax=fig.add_subplot('111')
+        ax=fig.add_subplot(111)
         ax.plot(a.tvals, a.set[0], 'ro', ls='-', label='combined')
         ax.plot(a.tvals, a.setw[0], 'bs', ls='-', label='water')
         ax.plot(a.tvals, a.seta[0], 'g*', ls='-', label='air')
@@ -225,7 +225,7 @@ figure_ext='.png'
         leg.set_draggable(True)
 
         fig = plt.figure()
-        ax=fig.add_subplot('111')
+        ax=fig.add_subplot(111)
         ax.plot(a.tvals, a.avpw[0], 'bs', ls='-', label='water')
         ax.plot(a.tvals, a.avpa[0], 'g*', ls='-', label='air')
         ax.set_xlabel('Time')
@@ -238,7 +238,7 @@ figure_ext='.png'
 
 
         fig = plt.figure()
-        ax=fig.add_subplot('111')
+        ax=fig.add_subplot(111)
         ax.plot(a.tvals, a.porw[len(a.ppress_z)//2], 'bs', ls='-', label='water')
         ax.plot(a.tvals, a.pora[len(a.ppress_z)//2], 'g*', ls='-', label='air')
         ax.set_xlabel('Time')
-- 
2.43.0


From 67005bb5cfcd1cd382fd7578a0f0bffb28ab9903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 055/125] fix: zhuandyin2012 degree of consolidation and
 settlement for q=-1

---
 geotecha/consolidation/zhuandyin2012.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/geotecha/consolidation/zhuandyin2012.py b/geotecha/consolidation/zhuandyin2012.py
index c379670..ea8ff95 100644
--- a/geotecha/consolidation/zhuandyin2012.py
+++ b/geotecha/consolidation/zhuandyin2012.py
@@ -261,7 +261,6 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
 
             Cm = numer/denom
         else:
-            print('got here')
             numer = (2 - np.pi * etam * b**(1+nu) * Zmu(etam, 1 + nu, nu, b))**2
             denom = etam**2 * ((b * np.pi * etam * Zmu(etam, 1 + nu, nu, b))**2-4)
 
@@ -274,13 +273,19 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
 
     doc = np.sum(Cm*Tm,axis=1)
 
+    #integral of (1+x)**q from 0 to alpha
+    if q==-1:
+        mv_integral = math.log(1 + alpha)
+    else:
+        mv_integral = ((1+alpha)**(1 + q) - 1) / (1 + q)
+
     if drn==0:
-        numer = 4*(1+q)
+        numer = 4
 #        numer_settle = 4
     elif drn==1:
-        numer = 16*(1+q)
+        numer = 16
 #        numer_settle = 16
-    denom = (2 - n) * ((1+alpha)**(1 + q) - 1)
+    denom = (2 - n) * mv_integral
 #    denom_settle = (2 - n)
 
 #    settle = mv0*ui*(1 - (H/alpha*numer_settle / denom_settle) * doc)
@@ -289,7 +294,7 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
     doc*= -fr
     doc += 1
 
-    settle = doc * ui* mv0*((1+alpha)**(1 + q) - 1)/(1+q)*H/alpha
+    settle = doc * ui* mv0 * mv_integral * H/alpha
 
 #    print(",".join(['{:.3g}']*4).format((1 - p) / (2 - n), nu, t[0], doc[0]))
     return por, doc, settle
-- 
2.43.0


From 135815f10a15c32a5dc9aa4f201472f0fac8c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 056/125] fix: NogamiAndLi2003 misses the first vertical
 eigenvalues when radial drainage is fast

---
 geotecha/consolidation/nogamiandli2003.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 5a9bc0b..2b8c5a8 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -540,6 +540,10 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                 alp=self.vertical_roots_x0
             else:
                 alp = self._alp[n-1,0]
+            # radial drainage alone bounds the decay rate from below (there
+            # are no vertical eigenvalues under this)
+            if not self.kh is None:
+                alp = max(alp, (1 - 1e-6) * np.sqrt(min(self.ch)) * s / self.r0)
             self._alp[n,:] = find_n_roots(self._vertical_characteristic_curve,
                 args=(s,),n= self.nv, x0 = alp+alp_start_offset,
                 dx = self.vertical_roots_dx, p = self.vertical_roots_p,
-- 
2.43.0


From 8ed2379d6ffac03149d6aa76b532e1a9ea17a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 057/125] fix: NogamiAndLi2003 mode shapes for layers with no
 vertical curvature (beta=0)

---
 geotecha/consolidation/nogamiandli2003.py | 27 ++++++++++++++---------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 2b8c5a8..aba10bd 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -458,9 +458,8 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                     h = self.h[k]
                     beta = self._betamn[i, j, k]
                     if cmath.polar(beta)[0]==0:
-                        phib = np.array([phia[0],0], dtype=complex)
-#                        phib[0] = phia[0]
-#                        phib[1] = 0+0j
+                        phib = np.array([phia[0] + h * phia[1], phia[1]],
+                                        dtype=complex)
                     else:
                         square[0,0] = cos(beta*h)
                         square[0,1] = sin(beta*h) / beta
@@ -506,9 +505,8 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 #        print('alp=', alp)
         for i, h in enumerate(self.h):
             if cmath.polar(beta[i])[0]==0:
-                phib = np.array([phia[0], 0], dtype=complex)
-#                phib[0] = phia[0]
-#                phib[1] = 0+0j
+                phib = np.array([phia[0] + h * phia[1], phia[1]],
+                                dtype=complex)
             else:
                 square[0,0] = cos(beta[i]*h)
                 square[0,1] = sin(beta[i]*h) / beta[i]
@@ -604,8 +602,9 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                     phi_a_dot = self._phidota[i, j, k]
 
                     if cmath.polar(bet)[0]==0:
-                        self._Amn[i,j,k] = h*phi_a
-                        self._Bmn[i,j,k] = h*phi_a**2
+                        self._Amn[i,j,k] = h*phi_a + h**2*phi_a_dot/2
+                        self._Bmn[i,j,k] = (h*phi_a**2 + h**2*phi_a*phi_a_dot +
+                            h**3*phi_a_dot**2/3)
                     else:
                         self._Amn[i,j,k] = (phi_a*sin(bet*h)/bet -
                             phi_a_dot*cos(bet*h)/bet**2 + phi_a_dot/bet**2)
@@ -957,8 +956,11 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                         Cmn = self._Cmn[i, j].real
                         phi_a = self._phia[i, j, layer]
                         phi_a_dot = self._phidota[i, j, layer]
-                        phi = (cos(bet * zlay) * phi_a +
-                            sin(bet * zlay)/bet * phi_a_dot)
+                        if bet == 0:
+                            phi = phi_a + zlay * phi_a_dot
+                        else:
+                            phi = (cos(bet * zlay) * phi_a +
+                                sin(bet * zlay)/bet * phi_a_dot)
                         self.por[k, p] += Cmn * un * phi.real * Tm
 
 
@@ -996,7 +998,10 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                         Cmn = self._Cmn[i, j].real
                         phi_a = self._phia[i, j, layer]
                         phi_a_dot = self._phidota[i, j, layer]
-                        phi = (sin(bet * h) / bet * phi_a +
+                        if bet == 0:
+                            phi = h * phi_a + h**2 / 2 * phi_a_dot
+                        else:
+                            phi = (sin(bet * h) / bet * phi_a +
                                 (1-cos(bet * h))/bet**2*phi_a_dot)
                         self.avp[0, p] += Cmn * un * phi.real / h_all * Tm
                         self.set[0, p] += self.mv[layer] * (load * h /self.nh/self.nv - Cmn *
-- 
2.43.0


From 56c86cf2f1fc7e1a2480427bfd8d9ac04d8940c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:35 +0000
Subject: [PATCH 058/125] fix: SchiffmanAndStein1970 IndexError at the base of
 the profile

---
 geotecha/consolidation/schiffmanandstein1970.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 5ac4dd4..45d47ed 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -765,7 +765,9 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         self.por = np.zeros((len(self.z), len(self.tpor)), dtype=float)
 
 
-        z_in_layer = np.searchsorted(self.zlayer, self.z)
+        # (rounding can put the base of the profile just below the last layer)
+        z_in_layer = np.minimum(np.searchsorted(self.zlayer, self.z),
+                                len(self.zlayer) - 1)
 
         for j, t in enumerate(self.tpor):
             for m in range(self.n):
-- 
2.43.0


From bc15945e91f8e067ef7a4501427e22de830c92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:35 +0000
Subject: [PATCH 059/125] fix: NogamiAndLi2003 IndexError at the base of the
 profile

---
 geotecha/consolidation/nogamiandli2003.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index aba10bd..4fda1f7 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -938,7 +938,9 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
 
 
-        z_in_layer = np.searchsorted(self.zlayer, self.z)
+        # (rounding can put the base of the profile just below the last layer)
+        z_in_layer = np.minimum(np.searchsorted(self.zlayer, self.z),
+                                len(self.zlayer) - 1)
 
         self._calc_un()
         for p, t in enumerate(self.tpor):
-- 
2.43.0


From b995772eeeb4a1c5caf19544ac51194d6d75ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 060/125] fix: zhuandyin2012 misses the first eigenvalues for
 strong variation with depth

---
 geotecha/consolidation/zhuandyin2012.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/zhuandyin2012.py b/geotecha/consolidation/zhuandyin2012.py
index ea8ff95..39332ab 100644
--- a/geotecha/consolidation/zhuandyin2012.py
+++ b/geotecha/consolidation/zhuandyin2012.py
@@ -166,8 +166,11 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
 #    print('nu', nu)
 #    print('(1 - p) / (2 - n)',(1 - p) / (2 - n))
 #    plot_eigs=True
+    # roots are about pi/abs(b-1) apart: start well before the first one
+    x0 = min(0.001, 0.001 * np.pi / abs(b - 1))
     if drn==0:
-        etam = find_n_roots(Zmu, args=(nu, nu, b), n = nterms, p=1.01)
+        etam = find_n_roots(Zmu, args=(nu, nu, b), n = nterms, x0=x0, dx=x0,
+                            p=1.01)
         if plot_eigs:
             fig=plt.figure(figsize=(20,5))
             ax = fig.add_subplot(111)
@@ -182,7 +185,8 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
             fig.tight_layout()
 
     elif drn==1:
-        etam = find_n_roots(drn1root, args=(nu, nu, b, p, n), n = nterms, p=1.01)
+        etam = find_n_roots(drn1root, args=(nu, nu, b, p, n), n = nterms,
+                            x0=x0, dx=x0, p=1.01)
         if plot_eigs:
             fig=plt.figure(figsize=(20,5))
             ax = fig.add_subplot(111)
-- 
2.43.0


From 7a3a9199151e5c6e714177bae9d12e3159c7469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 061/125] fix: dengetal2013 returns None when drain
 permeability increases with depth (A2<0)

---
 geotecha/consolidation/dengetal2013and2014.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 089da9d..16a6541 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -130,7 +130,7 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
         por = ui * np.exp(-8 * Th[None, :] / mus[:, None])
         return por
 
-    if A3 == 0 and A2 > 0:
+    if A3 == 0 and A2 != 0:
         # qw varies with depth
         mu1 = A2 * z / H + (A1 - A2)*np.log(1 - A2 / A1 * z / H)
         mu1 *= 2 * np.pi * kh * H**2 / (qw0 * A2**2)
@@ -146,7 +146,7 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
               (1+alp0[:, None])) ** (8/(a3 * mu0)))
         return por
 
-    if A3 > 0 and A2 > 0:
+    if A3 > 0 and A2 != 0:
         # qw varies with depth and time:
         a3 = A3 * 4 * re**2 / ch
         alp = mu0 * qw0 * A2**2 / (2 * np.pi * H**2 * kh)
-- 
2.43.0


From db53b2881fe492e692b74bc206541e8d66895da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 062/125] fix: dengetal2013 gives NaN at the drained end and
 for A2=A1

---
 geotecha/consolidation/dengetal2013and2014.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 16a6541..898e1ea 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -23,6 +23,7 @@ from __future__ import print_function, division
 
 import numpy as np
 from matplotlib import pyplot as plt
+from scipy.special import xlogy
 
 import geotecha.consolidation.smear_zones as smear_zones
 
@@ -132,7 +133,7 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
 
     if A3 == 0 and A2 != 0:
         # qw varies with depth
-        mu1 = A2 * z / H + (A1 - A2)*np.log(1 - A2 / A1 * z / H)
+        mu1 = A2 * z / H + xlogy(A1 - A2, 1 - A2 / A1 * z / H)
         mu1 *= 2 * np.pi * kh * H**2 / (qw0 * A2**2)
         mu1 += mu0
         por = ui * np.exp(-8 * Th[None, :] / mu1[:, None])
@@ -141,18 +142,20 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
     if A3 > 0 and A2 == 0:
         # qw varies with time
         a3 = A3 * 4 * re**2 / ch
-        alp0 = qw0 * A1 * mu0 / (np.pi * kh * (2*H*z - z**2))
-        por = (ui * ((1+alp0[:, None] * np.exp(-a3 * Th[None, :])) /
-              (1+alp0[:, None])) ** (8/(a3 * mu0)))
+        # (beta rather than 1 / beta: zero at the drained end, z=0)
+        beta = np.pi * kh * (2*H*z - z**2) / (qw0 * A1 * mu0)
+        por = (ui * ((beta[:, None] + np.exp(-a3 * Th[None, :])) /
+              (beta[:, None] + 1)) ** (8/(a3 * mu0)))
         return por
 
     if A3 > 0 and A2 != 0:
         # qw varies with depth and time:
         a3 = A3 * 4 * re**2 / ch
-        alp = mu0 * qw0 * A2**2 / (2 * np.pi * H**2 * kh)
-        alp /= A2* z / H + (A1 - A2) * np.log(1 - A2 / A1 * z / H)
-        por = (ui * ((1+alp[:, None] * np.exp(-a3 * Th[None, :])) /
-              (1+alp[:, None])) ** (8/(a3 * mu0)))
+        # (beta rather than 1 / beta: zero at the drained end, z=0)
+        beta = A2* z / H + xlogy(A1 - A2, 1 - A2 / A1 * z / H)
+        beta *= 2 * np.pi * H**2 * kh / (mu0 * qw0 * A2**2)
+        por = (ui * ((beta[:, None] + np.exp(-a3 * Th[None, :])) /
+              (beta[:, None] + 1)) ** (8/(a3 * mu0)))
         return por
 
 
-- 
2.43.0


From 39c1b9bc2f9777e19eefb90bd75632cbfd08ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 063/125] fix: dengetal2014 does not consolidate for constant
 drain permeability (A3=0, the default)

---
 geotecha/consolidation/dengetal2013and2014.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 898e1ea..845ccf3 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -255,16 +255,19 @@ def dengetal2014(z, t, rw, re, A3=0, H=1, rs=None, ks=None,
     G0 = np.pi * kh * H**2 / 4 / qw0
     M = ((2 * np.arange(nterms) + 1) / 2 * np.pi)
     C0 = M**2*mu0/8/G0 * n**2/ (n**2-1)
-    alp0 = qw0 * mu0 / (np.pi * kh * (2*H*z - z**2))
-
     Th = Th[np.newaxis, :, np.newaxis]
 
     M = M[np.newaxis, np.newaxis, :]
     C0 = C0[np.newaxis, np.newaxis, :]
     Z = (z / H)[:, np.newaxis, np.newaxis]
 
-    por = (2 / M * np.sin(M * Z) * ((1+C0 * np.exp(-a3 * Th))/
-          (1 + C0))**(8 / (a3 * mu0)))
+    if A3 == 0:
+        # qw is constant
+        decay = np.exp(-8 * Th / mu0 * C0 / (1 + C0))
+    else:
+        decay = ((1+C0 * np.exp(-a3 * Th))/ (1 + C0))**(8 / (a3 * mu0))
+
+    por = 2 / M * np.sin(M * Z) * decay
     por = ui * np.sum(por, axis=2)
 
     return por
-- 
2.43.0


From 36f447c361946541510166cc7e0edc93ea54c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 064/125] fix: luetal2010 divides by zero for equal vertical
 permeability of soil and column (the default)

---
 geotecha/consolidation/luetal2010.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/geotecha/consolidation/luetal2010.py b/geotecha/consolidation/luetal2010.py
index 6515481..ed93a70 100644
--- a/geotecha/consolidation/luetal2010.py
+++ b/geotecha/consolidation/luetal2010.py
@@ -129,14 +129,12 @@ def luetal2010(z, t, rc, re, H=1, rs=None, ks=None,
 
     betm = betm_numer / betm_denom
 
-    C = re**2 * mu0 / 2 / kh
-    C += rc**2 * (n**2 - 1)/ 8 / khc
-    C *= gamw * ((n**2 - 1)*kvc + kv) * mvs
-    C /= (n**2 - 1 + Y) * (kvc - kv)
-
+    # ratio of column to soil pore pressure in each mode (from the difference
+    # between the vertical flow equations of the column and the soil)
     D = re**2 * mu0 / 2 / kh
     D += rc**2 * (n**2 - 1)/ 8 / khc
-    D *= kv * kvc / (kvc - kv)
+    D = D * M**2 / H**2
+    ratio = (n**2 + kv * D) / (n**2 + kvc * D)
 
     minus1 = np.ones_like(M)
     minus1[1::2] = -1
@@ -146,11 +144,9 @@ def luetal2010(z, t, rc, re, H=1, rs=None, ks=None,
             np.sin(M[None, None, :] * z[:, None, None]/H) *
             np.exp(-betm[None, None, :] * t[None, :, None]))
 
-    pors = por * (1 + (C * H**2 * betm[None, None, :] - D * M[None, None, :]**2) /
-            (H**2 * (n**2 - 1)))
+    pors = por * (n**2 / (n**2 - 1 + ratio))
 
-    porc = por * (1 - C * betm[None, None, :]
-                    + D * M[None, None, :]**2 / H**2)
+    porc = pors * ratio
 
     por = np.sum(por, axis=2)
     pors = np.sum(pors, axis=2)
-- 
2.43.0


From 20adc4579e8d7090b49fa91907d71e1845e12817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 065/125] fix: tangandonitsuka2000 settlement at the instant of
 a step load

---
 geotecha/consolidation/tangandonitsuka2000.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/tangandonitsuka2000.py b/geotecha/consolidation/tangandonitsuka2000.py
index d478aae..2ba1277 100644
--- a/geotecha/consolidation/tangandonitsuka2000.py
+++ b/geotecha/consolidation/tangandonitsuka2000.py
@@ -233,7 +233,7 @@ def tangandonitsuka2000(z, t, kv, kh, ks, kw, mv, gamw, rw, rs, re, H,
 
 
     #settle
-    load = pwise.pinterp_x_y(surcharge_vs_time, t)
+    load = pwise.pinterp_x_y(surcharge_vs_time, t, choose_max=True)
     settle = H * mv * (load - avp)
 
     return por, avp, settle
-- 
2.43.0


From f6dfc40a7eb65f7e61350563b8e421eae9f9e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 066/125] fix: tangandonitsuka2000 accepts a single depth or
 time

---
 geotecha/consolidation/tangandonitsuka2000.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/consolidation/tangandonitsuka2000.py b/geotecha/consolidation/tangandonitsuka2000.py
index 2ba1277..df3349f 100644
--- a/geotecha/consolidation/tangandonitsuka2000.py
+++ b/geotecha/consolidation/tangandonitsuka2000.py
@@ -161,13 +161,13 @@ def tangandonitsuka2000(z, t, kv, kh, ks, kw, mv, gamw, rw, rs, re, H,
 
 
 
-    z= np.asarray(z)
-    t = np.asarray(t)
+    z = np.atleast_1d(z)
+    t = np.atleast_1d(t)
 
     if tpor is None:
         tpor = t
     else:
-        tpor = np.asarray(tpor)
+        tpor = np.atleast_1d(tpor)
 
 
 
-- 
2.43.0


From b0bc61dc49af904181c402586cedf008a2ba6503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 067/125] fix: shanetal2012 accepts lists and single values of
 depth and time

---
 geotecha/consolidation/shanetal2012.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotecha/consolidation/shanetal2012.py b/geotecha/consolidation/shanetal2012.py
index 6d53f06..fb7b46e 100644
--- a/geotecha/consolidation/shanetal2012.py
+++ b/geotecha/consolidation/shanetal2012.py
@@ -178,7 +178,7 @@ def shanetal2012(z, t, H, Cw, Cvw, Ca, Cva, drn=1, Csw=0, Csa=0,
         Ditionary describing a loading function. Default f=None i.e. no load
         e.g.
         f = {'type': 'exp', 'q0': 100, 'b': 0.00005} is a load described by
-        q(t) = q0 * exp[-b * t].
+        q(t) = q0 * (1 - exp[-b * t]).
         f = {'type': 'sin', 'q0': 100, 'omega': 2*np.pi/1e8} is a load
         described by q(t) = q0 * sin(omega*t).
     f1, f2 : dict, optional
@@ -230,6 +230,9 @@ def shanetal2012(z, t, H, Cw, Cvw, Ca, Cva, drn=1, Csw=0, Csa=0,
         return (-(q0*(-omega*exp(eigs*M**2*t)+eigs*M**2*sin(omega*t)+
                 omega*cos(omega*t)))/(eigs**2*M**4+omega**2))
 
+    z = np.atleast_1d(z)
+    t = np.atleast_1d(t)
+
     permitted_loads = ['exp', 'sin']
     permitted_parameters={'exp': ['q0','b'],
                           'sin': ['q0', 'omega']}
-- 
2.43.0


From 791d1571e4aca6480b543927738c23af972ea699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 068/125] fix: HansboNonDarcianFlowModel has no klinear for
 kstar with n=1 or iL=0

---
 geotecha/constitutive_models/velocity_hydraulic_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/velocity_hydraulic_gradient.py b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
index a641235..c504124 100644
--- a/geotecha/constitutive_models/velocity_hydraulic_gradient.py
+++ b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
@@ -418,7 +418,7 @@ class HansboNonDarcianFlowModel(OneDimensionalFlowRelationship):
                 self.n = 1
                 self.iL = 0
                 self.i0 = 0
-                self.k_linear = kstar
+                self.klinear = kstar
             else:
                 self.kstar = kstar
                 self.n = n
-- 
2.43.0


From 9834578d7896201eef5831c1c030ed009cce35a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 069/125] fix: HansboNonDarcianFlowModel divides by zero for
 iL=i0=0 with klinear

---
 .../velocity_hydraulic_gradient.py              | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/geotecha/constitutive_models/velocity_hydraulic_gradient.py b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
index c504124..492b5c7 100644
--- a/geotecha/constitutive_models/velocity_hydraulic_gradient.py
+++ b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
@@ -552,11 +552,18 @@ class HansboNonDarcianFlowModel(OneDimensionalFlowRelationship):
                 self.klinear = klinear
                 self.kstar = klinear / (self.n * self.iL**(self.n - 1))
         elif len([v for v in (iL, i0, klinear) if not v is None]) == 3:
-            self.n = iL / (iL - i0)
-            self.iL = iL
-            self.i0 = i0
-            self.klinear = klinear
-            self.kstar = klinear / (self.n * iL**(self.n - 1))
+            if iL == 0 and i0 == 0:
+                self.n = 1
+                self.iL = 0
+                self.i0 = 0
+                self.klinear = klinear
+                self.kstar = klinear
+            else:
+                self.n = iL / (iL - i0)
+                self.iL = iL
+                self.i0 = i0
+                self.klinear = klinear
+                self.kstar = klinear / (self.n * iL**(self.n - 1))
 
 
         if self.iL < self.i0:
-- 
2.43.0


From 41060a92f7a8b8241e59cdf10804a9ca7f90587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:10 +0000
Subject: [PATCH 070/125] fix: HansboNonDarcianFlowModel(kstar, iL, klinear)
 fails to converge for small iL

---
 .../velocity_hydraulic_gradient.py                   | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/velocity_hydraulic_gradient.py b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
index 492b5c7..dd38552 100644
--- a/geotecha/constitutive_models/velocity_hydraulic_gradient.py
+++ b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
@@ -24,6 +24,7 @@ from numpy import (isscalar, asarray)
 import matplotlib.pyplot as plt
 import matplotlib
 import scipy.optimize
+import scipy.special
 from collections import OrderedDict
 
 from geotecha.mathematics import root_finding
@@ -485,7 +486,16 @@ class HansboNonDarcianFlowModel(OneDimensionalFlowRelationship):
                 # note as at 20151106 scipy.optimize.fixed_point may not
                 # converge for this function because convergence acceleration
                 # is used.  Use my modified version instead:
-                self.n = root_finding.fixed_point_no_accel(fn,
+                if iL == 1:
+                    self.n = klinear / kstar
+                elif iL > 1:
+                    # The fixed point iteration need not converge for iL of
+                    # only a few (it oscillates when n*log(iL) < 1).  The
+                    # equation can be solved explicitly.
+                    self.n = (scipy.special.lambertw(
+                        klinear / kstar * iL * np.log(iL)).real / np.log(iL))
+                else:
+                    self.n = root_finding.fixed_point_no_accel(fn,
                                                            1.00001,
                                                            args=(klinear, kstar, iL))
 
-- 
2.43.0


From c8f6ac0d62665d437c40ed577bf032f5211d288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 071/125] fix: kwrel_from_discrete_swcc gives a negative
 permeability below the data range

---
 geotecha/constitutive_models/swcc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geotecha/constitutive_models/swcc.py b/geotecha/constitutive_models/swcc.py
index 6e491cc..27eec13 100644
--- a/geotecha/constitutive_models/swcc.py
+++ b/geotecha/constitutive_models/swcc.py
@@ -845,6 +845,8 @@ def kwrel_from_discrete_swcc(psi, psi_swcc, vw_swcc):
     slopebar = logslope/np.log(10)/xbar #slope at interval midpoint in normal space
 
     idx = np.searchsorted(psi_swcc, psi, side="right")-1
+    # permeability starts reducing at the first value of psi_swcc
+    idx = np.maximum(idx, 0)
     # if index error then chances are
 
     #TODO: limit what values of idx, to be within range
-- 
2.43.0


From 35d9ea9051d69dbdca1abffb380daf4570511780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 072/125] fix: YinAndGrahamSoilModel has no creep at constant
 stress

---
 .../constitutive_models/void_ratio_stress.py  | 23 ++++---------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 413b1d3..36d5860 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1641,25 +1641,10 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         nans = np.isnan(self._inc)
 
-        # Following expression gives errors when t0, estress0 or _estress are
-        # not arrays so I did it differently (may be slower):
-        # self._inc[nans] = dt / self.t0[nans] * (self._estress[nans] / self.estress0[nans]) ** (self._alpha + 1)
-        if np.isscalar(self._estress):
-            self._inc[nans] = self._estress
-        else:
-            self._inc[nans] = self._estress[nans]
-
-        if np.isscalar(self.estress0):
-            self._inc[nans] /= self.estress0
-        else:
-            self._inc[nans] /= self.estress0[nans]
-
-        np.power(self._inc[nans],(self._alpha + 1),out=self._inc[nans])
-
-        if np.isscalar(self.t0):
-            self._inc[nans] /= self.t0
-        else:
-            self._inc[nans] /= self.t0[nans]
+        # constant stress over the increment
+        self._inc[nans] = np.broadcast_to(
+            dt / self.t0 * (self._estress / self.estress0) ** self._alpha,
+            self._inc.shape)[nans]
 
         return self._inc
 
-- 
2.43.0


From 220b1d6be3931dde6a1bc1e0d030aaa082ee5887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 073/125] fix: YinAndGrahamSoilModel.stress_from_e returns its
 work array

---
 geotecha/constitutive_models/void_ratio_stress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 36d5860..3cccc5f 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1713,7 +1713,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
         self._igral += self._inc
         self._estress[:] = self._es
 
-        return  self._es
+        return  self._es.copy()
 
 
 #    def e_and_stress_for_plotting(self, **kwargs):
-- 
2.43.0


From f4da56198e2ee4c039fce7edb6b2909f253bef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 074/125] fix: YinAndGrahamSoilModel CRSN and CRSS leave the
 soil at the stress of the end of the simulation

---
 .../constitutive_models/void_ratio_stress.py     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 3cccc5f..5fec780 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1854,7 +1854,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         """
 
-        igral0 = self._igral # remember _igral value before CRSN simulation
+        # remember state before CRSN simulation, start at initial conditions
+        igral0, current_estress0 = self._igral, self._estress.copy()
+        self._reset_to_initial_conditions()
 
         method = kwargs.pop('method', 'step').lower()
         kwargs['dx']= kwargs.get('dx', (tvals[-1]  -tvals[0]) / 200)
@@ -1912,7 +1914,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
             for i, dt_ in enumerate(dt):
                 estress[i + 1] = self.stress_from_e(e[i+1], dt=dt_)
 
-        self._igral = igral0 # reset _igral to value before CRSN
+        # reset to state before CRSN
+        self._igral = igral0
+        self._estress[:] = current_estress0
 
         return tvals_, estress, e, edot_
 
@@ -1966,7 +1970,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         """
 
-        igral0 = self._igral # remember _igral value before CRSS simulation
+        # remember state before CRSS simulation, start at initial conditions
+        igral0, current_estress0 = self._igral, self._estress.copy()
+        self._reset_to_initial_conditions()
 
         method = kwargs.pop('method', 'step').lower()
         kwargs['dx']= kwargs.get('dx', (tvals[-1]  -tvals[0]) / 200)
@@ -2022,7 +2028,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
             for i, dt_ in enumerate(dt):
                 e[i + 1] = self.e_from_stress(estress[i+1], dt=dt_)
 
-        self._igral = igral0 # reset _igral to value before CRSS
+        # reset to state before CRSS
+        self._igral = igral0
+        self._estress[:] = current_estress0
 
         return tvals_, estress, e, estressdot_
 
-- 
2.43.0


From d50c38b78c57f4d1de00efa867f9fdb56925b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 075/125] fix: PwiseLinearSoilModel.av_from_stress at the first
 point

---
 geotecha/constitutive_models/void_ratio_stress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 5fec780..226d56c 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -969,7 +969,7 @@ class PwiseLinearSoilModel(OneDimensionalVoidRatioEffectiveStress):
             ea = self.ea[self.siga_slice]
 
         # interval at preconsolidatio stress
-        i = np.searchsorted(siga, max_past)
+        i = np.maximum(np.searchsorted(siga, max_past), 1)
         Cc = (ea[i - 1] - ea[i]) / (siga[i] - siga[i - 1])
         # void ratio at preconsolidation pressure
         e = ea[i-1] - Cc * (max_past - siga[i - 1])
-- 
2.43.0


From 658c11280fb80b5e4d1da8e8fc50d2ad850bdbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 076/125] fix: YinAndGrahamSoilModel.stress_from_e converges to
 spurious oscillating solutions

---
 geotecha/constitutive_models/void_ratio_stress.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 226d56c..21693a0 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1704,10 +1704,11 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
             self._es *= self.estress0
 
 
-            return self._es
+            return self._es.copy()
 #        fn(0)
 #        self._es *= 0.95
-        fixed_point(fn, self._estress, xtol=1e-3, maxiter=500)
+        # fn returns a new array every time, fixed_point keeps them
+        fn(fixed_point(fn, self._estress.copy(), xtol=1e-3, maxiter=500))
 
         #update the properties at end of dt time increment
         self._igral += self._inc
-- 
2.43.0


From fb957f1ba9693b93647f40ca5a0ad13a0306abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 077/125] fix: YinAndGrahamSoilModel loses precision when
 stress hardly changes in a step

---
 .../constitutive_models/void_ratio_stress.py  | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 21693a0..4b50b4f 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1630,21 +1630,15 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
         """
 
 
-        self._inc[:] = dt
-        self._inc /= self._alpha + 1
-        self._inc *= self.estress0
-        self._inc /= self.t0
-        self._inc /= (estress - self._estress)
-
-        self._inc *= ((estress / self.estress0) ** (self._alpha + 1)
-                      - (self._estress / self.estress0) ** (self._alpha + 1))
-
-        nans = np.isnan(self._inc)
-
+        # log1p and expm1 keep precision when stress hardly changes
+        change = (estress - self._estress) / self._estress
+        self._inc[:] = np.expm1((self._alpha + 1) * np.log1p(change))
+        self._inc /= (self._alpha + 1) * change
         # constant stress over the increment
-        self._inc[nans] = np.broadcast_to(
-            dt / self.t0 * (self._estress / self.estress0) ** self._alpha,
-            self._inc.shape)[nans]
+        self._inc[np.broadcast_to(change == 0, self._inc.shape)] = 1
+        self._inc *= (self._estress / self.estress0) ** self._alpha
+        self._inc *= dt
+        self._inc /= self.t0
 
         return self._inc
 
-- 
2.43.0


From d3f2b0d359d60d967a3e14d17c82f1fe02a85566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 078/125] fix: CcCrSoilModel cannot be plotted for a
 preconsolidation stress above the range

---
 geotecha/constitutive_models/void_ratio_stress.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 4b50b4f..4247be5 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -345,8 +345,9 @@ class CcCrSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         x = np.linspace(xmin, xmax, npts)
         pstress = kwargs.get('pstress', x)
-        i = np.searchsorted(x, pstress)
-        x[i] = pstress
+        if np.max(pstress) <= xmax:
+            i = np.searchsorted(x, pstress)
+            x[i] = pstress
         y = self.e_from_stress(x, pstress=pstress)
 
         return x, y
-- 
2.43.0


From 3a2fe2f601df67094c7de85d298bbd9ea492007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 079/125] fix: YinAndGrahamSoilModel CRSN and CRSS by odeint
 give NaN near the end

---
 geotecha/constitutive_models/void_ratio_stress.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 4247be5..d4d91f2 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1892,7 +1892,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                     ))
 
 
-            estress = odeint(func, self.estress0, tvals_)[:,0]
+            estress = odeint(func, self.estress0, tvals_, tcrit=tvals[1:])[:,0]
             edot_ = np.interp(tvals_, tvals, edot)
             e = self.e0 + pwise.integrate_x_y_between_xi_xj(tvals, edot, np.zeros_like(tvals_), tvals_)
 
@@ -2006,7 +2006,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                         *(estressvalue / self.siga)**(self.lam / self.psi))
 
 
-            e = odeint(func, self.e0, tvals_)[:,0]
+            e = odeint(func, self.e0, tvals_, tcrit=tvals[1:])[:,0]
             estressdot_ = np.interp(tvals_, tvals, estressdot)
             estress = self.estress0 + pwise.integrate_x_y_between_xi_xj(tvals, estressdot, np.zeros_like(tvals_), tvals_)
 
-- 
2.43.0


From b7693afbae5c73d47dbbc45abebfc921ed35c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 080/125] fix: FourierTransform sign of the odd part of
 imaginary functions without symmetry

---
 geotecha/mathematics/fourier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/mathematics/fourier.py b/geotecha/mathematics/fourier.py
index aa91207..b1b00e7 100644
--- a/geotecha/mathematics/fourier.py
+++ b/geotecha/mathematics/fourier.py
@@ -463,11 +463,11 @@ class FourierTransform(object):
                 # real transform result [-inf, 0]
                 ig, er = [self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.mfo, s, a=self.a, b=self.b)]
-                igral -= ig; err += er
+                igral += ig; err += er
                 # real transform result [0, inf]
                 ig, er = [self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.func, s, self.args, a=self.a, b=self.b)]
-                igral -= ig; err += er
+                igral += ig; err += er
 
                 return igral, err
 
-- 
2.43.0


From 9a3c8617d8737bc6a3d10c325143b9bff33e129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 081/125] fix: FourierTransform of complex functions with an
 even or odd imaginary part

---
 geotecha/mathematics/fourier.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotecha/mathematics/fourier.py b/geotecha/mathematics/fourier.py
index b1b00e7..cb5328e 100644
--- a/geotecha/mathematics/fourier.py
+++ b/geotecha/mathematics/fourier.py
@@ -505,12 +505,12 @@ class FourierTransform(object):
 
 
         if self.imag_part_even:
-            igral, err = [2.j * self.inv_const * v for v in
-                        cosine_transform(self.func, s, self.args, a=self.a, b=self.b)]
+            ig, er = [2.j * self.inv_const * v for v in
+                        cosine_transform(self.imag_func, s, a=self.a, b=self.b)]
             igral += ig; err += er
-        elif self.real_part_odd:
-            igral, err = [2 * self.inv_const * self.inv_sign * v for v in
-                        sine_transform(self.func, s, self.args, a=self.a, b=self.b)]
+        elif self.imag_part_odd:
+            ig, er = [2 * self.inv_const * self.inv_sign * v for v in
+                        sine_transform(self.imag_func, s, a=self.a, b=self.b)]
             igral += ig; err += er
         else:
             #imag part of function exhibits no symmetry
-- 
2.43.0


From de24b4aa710fba7ee8878dfbf91b2d61c95dff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 082/125] fix: shanks loses precision, worse than the plain sum
 for nearly converged sequences

---
 geotecha/mathematics/quadrature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/mathematics/quadrature.py b/geotecha/mathematics/quadrature.py
index 06d0424..fef83c1 100644
--- a/geotecha/mathematics/quadrature.py
+++ b/geotecha/mathematics/quadrature.py
@@ -1182,9 +1182,9 @@ def shanks(seq, ind=0):
         denom = (seq[..., i + 2:] - 2 * seq[..., i + 1: -1] + seq[..., i:-2])
         if np.any(denom==0):
             return +seq[..., -1]
-        seq[..., i + 2:] = (
-            (seq[..., i + 2:] * seq[..., i:-2] - seq[..., i + 1:-1]**2) /
-            denom)
+        # same as (A[n+1]*A[n-1] - A[n]**2)/denom without the cancellation
+        seq[..., i + 2:] -= (
+            (seq[..., i + 2:] - seq[..., i + 1:-1])**2 / denom)
     return +seq[...,-1]
 
 
-- 
2.43.0


From 7f3900b6207bf7f9b8c91fb6027d8605e9975c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 083/125] fix: shanks of one row depends on the other rows

---
 geotecha/mathematics/quadrature.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geotecha/mathematics/quadrature.py b/geotecha/mathematics/quadrature.py
index fef83c1..9e298fe 100644
--- a/geotecha/mathematics/quadrature.py
+++ b/geotecha/mathematics/quadrature.py
@@ -1180,11 +1180,13 @@ def shanks(seq, ind=0):
     for i in range(ind, seq.shape[-1] - 2, 2):
 
         denom = (seq[..., i + 2:] - 2 * seq[..., i + 1: -1] + seq[..., i:-2])
-        if np.any(denom==0):
+        if np.all(denom==0):
             return +seq[..., -1]
         # same as (A[n+1]*A[n-1] - A[n]**2)/denom without the cancellation
-        seq[..., i + 2:] -= (
-            (seq[..., i + 2:] - seq[..., i + 1:-1])**2 / denom)
+        numer = (seq[..., i + 2:] - seq[..., i + 1:-1])**2
+        # zero denominator: that part of the sequence cannot be improved
+        seq[..., i + 2:] -= np.where(denom==0, 0,
+                                     numer / np.where(denom==0, 1, denom))
     return +seq[...,-1]
 
 
-- 
2.43.0


From 8ab16ef459a81e502fc38e8f745f2261f19667bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 084/125] fix: polygon_area is nan or negative for some
 orientations

---
 geotecha/mathematics/geometry.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index 2627763..e6bd49c 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -236,10 +236,9 @@ def polygon_area(pts):
     x, y, z = xyz_from_pts(pts,True)
     n, d = eqn_of_plane(pts)
 
-    i = np.argmax(n) #project polygon onto plane that is perpendicular to this direction, then integrate the area
+    i = np.argmax(np.abs(n)) #project polygon onto plane that is perpendicular to this direction, then integrate the area
 
-    j = list(range(3))
-    j.pop(i) #remaining directions
+    j = [(i + 1) % 3, (i + 2) % 3] #remaining directions, right handed
     e = (x, y, z)
     def if1dxdy(x, y):
         """integrate f=1 over polygon of x,y points"""
-- 
2.43.0


From 0fb687a62e9a40cdb347e435091428c8a219db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 085/125] fix: polygon_centroid loses the coordinate of planes
 parallel to two axes and precision near them

---
 geotecha/mathematics/geometry.py | 38 +++++++++-----------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index e6bd49c..512366f 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -281,36 +281,18 @@ def polygon_centroid(pts):
     a = polygon_area(pts)
 
 
-    xc=0.0
-    yc=0.0
-    zc=0.0
-
-    calcd = [False,False,False]
-
+    #project onto plane that is perpendicular to the greatest component of
+    #the normal; the remaining coordinate is in the plane of the polygon
+    i = np.argmax(np.abs(n))
+    j, k = (i + 1) % 3, (i + 2) % 3
+    e = (x, y, z)
 
-    if n[0]!=0:#project on yz plane
-        if not calcd[1]:
-            yc = ifxdxdy(y, z)/ (n[0] * a)
-            calcd[1]= True
-        if not calcd[2]:
-            zc = ifydxdy(y, z)/ (n[0] * a)
-            calcd[2]= True
-    if n[1]!=0: #project on zx plane
-        if not calcd[2]:
-            zc = ifxdxdy(z, x)/ (n[1] * a)
-            calcd[2]= True
-        if not calcd[0]:
-            xc = ifydxdy(z, x)/ (n[1] * a)
-            calcd[0]= True
-    if n[2]!=0: #project on xy plane
-        if not calcd[0]:
-            xc = ifxdxdy(x, y)/ (n[2] * a)
-            calcd[0]= True
-        if not calcd[1]:
-            yc = ifydxdy(x, y)/ (n[2] * a)
-            calcd[1]= True
+    c = np.zeros(3, dtype=float)
+    c[j] = ifxdxdy(e[j], e[k]) / (n[i] * a)
+    c[k] = ifydxdy(e[j], e[k]) / (n[i] * a)
+    c[i] = -(d + n[j] * c[j] + n[k] * c[k]) / n[i]
 
-    return np.array([xc, yc, zc])
+    return c
 
 
 def polygon_2nd_moment_of_area(pts):
-- 
2.43.0


From 6b4f6728d89a2446c9c6550623f904a08720f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 086/125] fix: polygon_2nd_moment_of_area loses precision for
 planes almost parallel to an axis

---
 geotecha/mathematics/geometry.py | 55 +++++++++++++-------------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index 512366f..090e2c8 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -326,44 +326,35 @@ def polygon_2nd_moment_of_area(pts):
             x[1:]*y[:-1]*y[1:]/6 - x[1:]*y[:-1]*yc/3 + x[1:]*y[1:]**2/4 -
             2*x[1:]*y[1:]*yc/3 + x[1:]*yc**2/2))
 
+    def ifxydxdy(x,y,xc,yc):
+        """integrate f = (x - xc)*(y - yc) over polygon of x,y points"""
+        x = x - xc
+        y = y - yc
+        return np.sum((x[:-1]*y[1:] - x[1:]*y[:-1])*(x[:-1]*y[1:] +
+            2*x[:-1]*y[:-1] + 2*x[1:]*y[1:] + x[1:]*y[:-1])) / 24
+
 
     pts = np.asarray(pts)
     x, y, z = xyz_from_pts(pts, True)
     n, d = eqn_of_plane(pts)
     a = polygon_area(pts)
 
-    xc,yc,zc = polygon_centroid(pts)
-
-    ixx=0.0
-    iyy=0.0
-    izz=0.0
-
-    calcd = [False, False, False]
-
-
-    if n[0]!=0:#project on yz plane
-        if not calcd[1]:
-            iyy = ifx2dxdy(y, z, yc)/ (n[0] * a)
-            calcd[1]= True
-        if not calcd[2]:
-            izz = ify2dxdy(y, z, zc)/ (n[0] * a)
-            calcd[2]= True
-    if n[1]!=0: #project on zx plane
-        if not calcd[2]:
-            izz = ifx2dxdy(z, x, zc)/ (n[1] * a)
-            calcd[2]= True
-        if not calcd[0]:
-            ixx = ify2dxdy(z, x, xc)/ (n[1] * a)
-            calcd[0]= True
-    if n[2]!=0: #project on xy plane
-        if not calcd[0]:
-            ixx = ifx2dxdy(x, y, xc)/ (n[2] * a)
-            calcd[0]= True
-        if not calcd[1]:
-            iyy = ify2dxdy(x, y, yc)/ (n[2] * a)
-            calcd[1]= True
-
-    return np.array([ixx, iyy, izz])
+    c = polygon_centroid(pts)
+
+    #project onto plane that is perpendicular to the greatest component of
+    #the normal; the remaining coordinate is in the plane of the polygon
+    i = np.argmax(np.abs(n))
+    j, k = (i + 1) % 3, (i + 2) % 3
+    e = (x, y, z)
+
+    out = np.zeros(3, dtype=float)
+    out[j] = ifx2dxdy(e[j], e[k], c[j]) / (n[i] * a)
+    out[k] = ify2dxdy(e[j], e[k], c[k]) / (n[i] * a)
+    ijk = ifxydxdy(e[j], e[k], c[j], c[k]) / (n[i] * a)
+    out[i] = (n[j]**2 * out[j] + 2 * n[j] * n[k] * ijk +
+              n[k]**2 * out[k]) / n[i]**2
+
+    return out
 
 def polyhedron_volume(faces):
     """Volume of polyhedron defined by faces defined py pts
-- 
2.43.0


From 09c7ad9fb4899fb107514b793363278316165bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 087/125] fix: polyhedron_volume is wrong when a face is almost
 parallel to the x axis

---
 geotecha/mathematics/geometry.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index 090e2c8..3efedcc 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -382,18 +382,9 @@ def polyhedron_volume(faces):
     for pts in faces:
         pts = np.asarray(pts)
         x, y, z = xyz_from_pts(pts,True)
-        (n1,n2,n3),d = eqn_of_plane(pts)
-        if n1==0:
-            continue
-        #generate code with integrate_f_over_polyhedra_code(1)
-        v += np.sum((-z[:-1] + z[1:])*((-2*d*y[:-1] - n2*y[:-1]**2 -
-            2*n3*y[:-1]*z[:-1])/(2*n1) + (d*y[:-1] - d*y[1:] + n2*y[:-1]**2 -
-            n2*y[:-1]*y[1:] + 2*n3*y[:-1]*z[:-1] - n3*y[:-1]*z[1:] -
-            n3*y[1:]*z[:-1])/(2*n1) + (-n2*y[:-1]**2 + 2*n2*y[:-1]*y[1:] -
-            n2*y[1:]**2 - 2*n3*y[:-1]*z[:-1] + 2*n3*y[:-1]*z[1:] +
-            2*n3*y[1:]*z[:-1] - 2*n3*y[1:]*z[1:])/(6*n1)))
-
-
+        n, d = eqn_of_plane(pts)
+        #pyramid with face as base and apex at origin
+        v -= d * polygon_area(pts) / 3
 
     return v
 
-- 
2.43.0


From a947277989c578ba4c28adbe024dd74d18084e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 088/125] fix: find_n_roots never ends when a step lands
 exactly on a root

---
 geotecha/mathematics/root_finding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotecha/mathematics/root_finding.py b/geotecha/mathematics/root_finding.py
index 973cccf..2277bc6 100644
--- a/geotecha/mathematics/root_finding.py
+++ b/geotecha/mathematics/root_finding.py
@@ -210,7 +210,10 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
             #move right
             if not np.allclose(xr, x1, atol=atol, rtol=rtol):
                 x1 = xr+(x1-xr) * 0.1
-                y1 = func(x1, *args)
+            else:
+                #do not start the next search on the root just found
+                x1 = x1 + dx * 0.1
+            y1 = func(x1, *args)
             x00 = x1
 
             #reset iters for next root
-- 
2.43.0


From e499a2a651de87b668672afc2010e45c4d3b8f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 089/125] fix: MovingPointLoads.point_loads_on_beam ignores t0,
 and x0 for negative velocity

---
 geotecha/beam_on_foundation/specbeam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 503e39a..4d887d3 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1696,9 +1696,11 @@ class MovingPointLoads(object):
         """
 
         if self.v >= 0:
-            self.xnow[:] = self.axle_positions(t=t, v0=self.v, x0=self.x0)
+            self.xnow[:] = self.axle_positions(t=t, v0=self.v, t0=self.t0,
+                                               x0=self.x0)
         else:
-            self.xnow[:] = self.axle_positions(t=t, v0=self.v, x0=self.L)
+            self.xnow[:] = self.axle_positions(t=t, v0=self.v, t0=self.t0,
+                                               x0=self.x0 + self.L)
 
         self.pnow[:] = self.p
 
-- 
2.43.0


From ec6c699d21931766b83402974bf19c7df9e6ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 090/125] fix: SpecBeam k3bar ignored, k1bar used in its place

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 4d887d3..2bd2e5a 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -856,7 +856,7 @@ class SpecBeam(object):
                                             a=self.mubar,
                                             implementation=self.implementation)
 
-        self.k3barj = pwise.pinterp_x_y(self.k1bar, self.xj)
+        self.k3barj = pwise.pinterp_x_y(self.k3bar, self.xj)
 
 
     def wofx(self, x=None, x_norm=None, tslice=slice(None, None, None), normalise_w=True):
-- 
2.43.0


From a4803c9cf8579039ace86678ce80661a4596b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 091/125] fix: SpecBeam non normalised moving_loads ignore x0
 and travel length

---
 geotecha/beam_on_foundation/specbeam.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 2bd2e5a..e752bb7 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -545,13 +545,16 @@ class SpecBeam(object):
                                                        offset=offv,
                                                        v=vv,
                                                        t0=t0v,
-                                                       L=self.L)
-                                        for xv,pv,offv,vv,t0v in
+                                                       L=Lv,
+                                                       x0=x0v)
+                                        for xv,pv,offv,vv,t0v,Lv,x0v in
                                         zip(self.moving_loads_x,
                                             self.moving_loads_Fz,
                                             self.moving_loads_offset,
                                             self.moving_loads_v,
-                                            self.moving_loads_t0)]
+                                            self.moving_loads_t0,
+                                            self.moving_loads_L,
+                                            self.moving_loads_x0)]
 
 
 
-- 
2.43.0


From 4fecfd9199e50b782c615a91ee2cfe60ddfa03af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 092/125] fix: tanhtran ignores the position of the transition

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index e752bb7..cae13cd 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -8545,7 +8545,7 @@ def tanhtran(x, a, b):
     tanhtranib : get smoothing factor from speccific x,y
 
     """
-    return 0.5+0.5*np.tanh((x-0.5)/b)
+    return 0.5+0.5*np.tanh((x-a)/b)
 
 
 def tanhtrani(y, a, b):
-- 
2.43.0


From 7bb30a4aa8a870538e7048e5b210990061a404d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 093/125] fix: SpecBeam phase of non normalised cyclic
 stationary loads is scaled as if it was a load

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index cae13cd..07e95bd 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -601,7 +601,7 @@ class SpecBeam(object):
                 else:
                     #only omega is effected, phase remains unchanged
                     self.stationary_loads_omega_phase_norm = (
-                        [(v[0] * self.L / np.sqrt(self.E / self.rho),v[1]/ (self.E * self.A))
+                        [(v[0] * self.L / np.sqrt(self.E / self.rho), v[1])
                             if not v is None else None for v in self.stationary_loads_omega_phase])
 
 
-- 
2.43.0


From a8c588fcdbf3201586382980949c3688caa2b305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 094/125] fix: SpecBeam analytical solution refuses k3=0

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 07e95bd..196ab53 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -443,7 +443,7 @@ class SpecBeam(object):
             self.k3_norm=0
 
         if (((self.BC.upper() in ["CC","FF"]) or
-            (sum([v==0 for v in [self.k3, self.k3_norm]]) != 2))
+            any([not v in (None, 0) for v in [self.k3, self.k3_norm]]))
             and self.use_analytical):
             raise ValueError ("If use_analytical=True, cannot have BC='CC, BC='FF', or either k3!=None or k3_norm!=None")
 
-- 
2.43.0


From b64d77037318aabe94426787f7c13dabad21a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 095/125] fix: DingEtAl2012.wofx cannot give normalised
 deflections

---
 geotecha/beam_on_foundation/dingetal2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 8eebbd7..4033714 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -412,7 +412,7 @@ class DingEtAl2012(object):
             for j, qq in enumerate(self.qsol[tslice, :self.nterms]):
                 v[i, j] = self.w(qq, xx)
         
-        if not normalise_w is None:
+        if not normalise_w:
             v *= self.L
             
         if len(x_norm)==1:
-- 
2.43.0


From 633db5e98a633088c3be123e92368bc16cf9efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 096/125] fix: DingEtAl2012 quadrature points of clamped and
 free beams

---
 geotecha/beam_on_foundation/dingetal2012.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 4033714..d2f55a7 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -211,11 +211,11 @@ class DingEtAl2012(object):
             self.beta = find_n_roots(_f, n=self.nterms, x0=0.001, dx=3.14159 / 10, p=1.1)
             
             if not self.nquad is None:
-                self.xj = 0.5*(1 - np.cos(np.pi * np.arange(self.nquad)/(self.nquad - 3)))
+                self.xj = 0.5*(1 - np.cos(np.pi * (np.arange(self.nquad) - 1)/(self.nquad - 3)))
                 self.xj[0] = 0
                 self.xj[1] = 0.0001
-                self.xj[-2] = 0.0001
-                self.xj[-1] = 0
+                self.xj[-2] = 1 - 0.0001
+                self.xj[-1] = 1
             
             self.BC_coeff = 1 # Coefficeint to multiply Fz(vt) and k3*Integral terms by
             if self.BC == "CC":
-- 
2.43.0


From 1ea56ffc749ddf291ac961da6ac4edc3a48f1ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:13 +0000
Subject: [PATCH 097/125] fix: DingEtAl2012 load goes on acting after it has
 left the beam

---
 geotecha/beam_on_foundation/dingetal2012.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index d2f55a7..dbcdc0c 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -316,7 +316,8 @@ class DingEtAl2012(object):
 
             self.vsvdot[self.nterms + i] -= (self.k1_norm + self.kf**2 * self.beta[i]**4) * q[i]
 
-            self.vsvdot[self.nterms + i] += self.BC_coeff * self.Fz_norm * self.phi(self.v_norm * tnow, self.beta[i])
+            if self.v_norm * tnow <= 1: #load still on the beam
+                self.vsvdot[self.nterms + i] += self.BC_coeff * self.Fz_norm * self.phi(self.v_norm * tnow, self.beta[i])
 
 
             if 1:
-- 
2.43.0


From 7cbe6847cbf7178b9c9da3501ae83c6c25e65358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:13 +0000
Subject: [PATCH 098/125] fix: DingEtAl2012 nquad=None raises

---
 geotecha/beam_on_foundation/dingetal2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index dbcdc0c..b179f1e 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -320,7 +320,7 @@ class DingEtAl2012(object):
                 self.vsvdot[self.nterms + i] += self.BC_coeff * self.Fz_norm * self.phi(self.v_norm * tnow, self.beta[i])
 
 
-            if 1:
+            if not self.nquad is None:
                 # DIY quadrature
                 Fj = np.sum(q[:,None] * self.phi(self.xj[None, :], self.beta[:,None]), axis=0)**3
                 y = np.sum(self.Ij * Fj * self.phi(self.xj, self.beta[i]))
-- 
2.43.0


From 81fa7f912d37e8981bfcf473ef93aee388ad20db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:04 +0000
Subject: [PATCH 099/125] fix: DingEtAl2012 clamped trial functions lose all
 precision beyond about ten terms

---
 geotecha/beam_on_foundation/dingetal2012.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index b179f1e..92235e7 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -246,12 +246,16 @@ class DingEtAl2012(object):
 
     def phiCC(self, x, beta):
 
-        def _xi(beta):
-            return (np.cosh(beta) - np.cos(beta))/(np.sinh(beta) - np.sin(beta))
-
-        return (np.cosh(beta * x)
+        # cosh(beta*x) - xi*sinh(beta*x) as exponentials, xi tends to one and
+        # nothing is left of the difference of hyperbolic functions
+        e = np.exp(-beta)
+        d = 1 - e * e - 2 * e * np.sin(beta)
+        xi = (1 + e * e - 2 * e * np.cos(beta)) / d
+
+        return ((np.cos(beta) - np.sin(beta) - e) / d * np.exp(beta * (x - 1))
+                + (1 + xi) / 2 * np.exp(-beta * x)
                 - np.cos(beta * x)
-                + _xi(beta) * (np.sin(beta * x) - np.sinh(beta * x))
+                + xi * np.sin(beta * x)
                 )
 
 
-- 
2.43.0


From 530b854ff865a6a425ffdd7242403bf841af9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:53 +0000
Subject: [PATCH 100/125] fix: cyclic load integrals refuse complex eigenvalues

---
 geotecha/speccon/integrals.py | 45 +++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/geotecha/speccon/integrals.py b/geotecha/speccon/integrals.py
index b590d99..53f81cf 100644
--- a/geotecha/speccon/integrals.py
+++ b/geotecha/speccon/integrals.py
@@ -3031,13 +3031,18 @@ def EDload_linear(loadtim, loadmag, eigs, tvals, dT=1.0, implementation='vectori
     loadmag = np.asarray(loadmag)
     eigs = np.asarray(eigs)
     tvals = np.asarray(tvals)
+    dtype = np.result_type(eigs, float) #eigs may be complex
+    if dtype.kind == 'c' and implementation == 'fortran':
+        #fortran subroutine is for real eigs only.
+        implementation = 'vectorized'
 
     if implementation == 'scalar':
-        sin = math.sin
-        cos = math.cos
-        exp = math.exp
+        sin = np.sin
+        cos = np.cos
+        exp = np.exp
+        #note that math module doesn't like complex numbers
 
-        A = np.zeros([len(tvals), len(eigs)])
+        A = np.zeros([len(tvals), len(eigs)], dtype=dtype)
 
         (ramps_less_than_t, constants_less_than_t, steps_less_than_t,
             ramps_containing_t, constants_containing_t) = segment_containing_also_segments_less_than_xi(loadtim, loadmag, tvals, steps_or_equal_to = True)
@@ -3072,7 +3077,7 @@ def EDload_linear(loadtim, loadmag, eigs, tvals, dT=1.0, implementation='vectori
         cos = np.cos
         exp = np.exp
 
-        A = np.zeros([len(tvals), len(eigs)])
+        A = np.zeros([len(tvals), len(eigs)], dtype=dtype)
 
         (ramps_less_than_t, constants_less_than_t, steps_less_than_t,
             ramps_containing_t, constants_containing_t) = segment_containing_also_segments_less_than_xi(loadtim, loadmag, tvals, steps_or_equal_to = True)
@@ -3205,13 +3210,18 @@ def Eload_coslinear(loadtim, loadmag, omega, phase, eigs, tvals, dT=1.0, impleme
     loadmag = np.asarray(loadmag)
     eigs = np.asarray(eigs)
     tvals = np.asarray(tvals)
+    dtype = np.result_type(eigs, float) #eigs may be complex
+    if dtype.kind == 'c' and implementation == 'fortran':
+        #fortran subroutine is for real eigs only.
+        implementation = 'vectorized'
 
     if implementation == 'scalar':
-        sin = math.sin
-        cos = math.cos
-        exp = math.exp
+        sin = np.sin
+        cos = np.cos
+        exp = np.exp
+        #note that math module doesn't like complex numbers
 
-        A = np.zeros([len(tvals), len(eigs)])
+        A = np.zeros([len(tvals), len(eigs)], dtype=dtype)
 
         (ramps_less_than_t, constants_less_than_t, steps_less_than_t,
             ramps_containing_t, constants_containing_t) = segment_containing_also_segments_less_than_xi(loadtim, loadmag, tvals, steps_or_equal_to = True)
@@ -3771,7 +3781,7 @@ def Eload_coslinear(loadtim, loadmag, omega, phase, eigs, tvals, dT=1.0, impleme
         cos = np.cos
         exp = np.exp
 
-        A = np.zeros([len(tvals), len(eigs)])
+        A = np.zeros([len(tvals), len(eigs)], dtype=dtype)
 
         (ramps_less_than_t, constants_less_than_t, steps_less_than_t,
             ramps_containing_t, constants_containing_t) = segment_containing_also_segments_less_than_xi(loadtim, loadmag, tvals, steps_or_equal_to = True)
@@ -4430,13 +4440,18 @@ def EDload_coslinear(loadtim, loadmag, omega, phase,eigs, tvals, dT=1.0, impleme
     loadmag = np.asarray(loadmag)
     eigs = np.asarray(eigs)
     tvals = np.asarray(tvals)
+    dtype = np.result_type(eigs, float) #eigs may be complex
+    if dtype.kind == 'c' and implementation == 'fortran':
+        #fortran subroutine is for real eigs only.
+        implementation = 'vectorized'
 
     if implementation == 'scalar':
-        sin = math.sin
-        cos = math.cos
-        exp = math.exp
+        sin = np.sin
+        cos = np.cos
+        exp = np.exp
+        #note that math module doesn't like complex numbers
 
-        A = np.zeros([len(tvals), len(eigs)])
+        A = np.zeros([len(tvals), len(eigs)], dtype=dtype)
 
         (ramps_less_than_t, constants_less_than_t, steps_less_than_t,
             ramps_containing_t, constants_containing_t) = segment_containing_also_segments_less_than_xi(loadtim, loadmag, tvals, steps_or_equal_to = True)
@@ -5006,7 +5021,7 @@ def EDload_coslinear(loadtim, loadmag, omega, phase,eigs, tvals, dT=1.0, impleme
         cos = np.cos
         exp = np.exp
 
-        A = np.zeros([len(tvals), len(eigs)])
+        A = np.zeros([len(tvals), len(eigs)], dtype=dtype)
 
         (ramps_less_than_t, constants_less_than_t, steps_less_than_t,
             ramps_containing_t, constants_containing_t) = segment_containing_also_segments_less_than_xi(loadtim, loadmag, tvals, steps_or_equal_to = True)
-- 
2.43.0


From f7e7a833aa8d8ec6417d8e245660313fd9220fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:25 +0000
Subject: [PATCH 101/125] fix: pleasing_defaults, and with it every
 produce_plots, raises KeyError for removed rcParam axes.color_cycle

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 158a582..ceccc6e 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -790,7 +790,7 @@ def pleasing_defaults():
     # Another ColorBrewer scale. This one has nice "traditional" colors like
     # reds and blues
     set1 = brewer2mpl.get_map('Set1', 'qualitative', 9).mpl_colors
-    mpl.rcParams['axes.color_cycle'] = set2
+    mpl.rcParams['axes.prop_cycle'] = mpl.cycler(color=set2)
 
     # Set some commonly used colors
     almost_black = '#262626'
-- 
2.43.0


From dc8dd9fadc916c4f1b668d1d0d299d98f1e3eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:25 +0000
Subject: [PATCH 102/125] fix: plot_generic_loads depth axis points the wrong
 way for an even number of load types

---
 geotecha/plotting/one_d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index ceccc6e..67b0370 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1451,7 +1451,8 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
             ax2[-1].set_xlabel(xlabel2)
 
         if RLzero is None:
-            ax2[-1].invert_yaxis()
+            if i==0: # y axis is shared, inverting again would undo it
+                ax2[-1].invert_yaxis()
             ylabel = prop_dict.get('depth_axis_label', 'Depth, z')
         else:
             ylabel = prop_dict.get('depth_axis_label', 'RL')
-- 
2.43.0


From a25eb426836d50a099e9d27ec60f80621560a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:25 +0000
Subject: [PATCH 103/125] fix: plot_data_in_grid ignores sharex and sharey

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 67b0370..b45f6f4 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1138,7 +1138,7 @@ def plot_data_in_grid(fig, data, gs,
         else:
             shy=ax[sharey[i]]
 
-        ax.append(fig.add_subplot(gs[j]))
+        ax.append(fig.add_subplot(gs[j], sharex=shx, sharey=shy))
 
         for j, xy_etc in enumerate(subplot_data):
             #xy_etc is a single [x,y,dict] to send to plt.plot, or plt.plot_type
-- 
2.43.0


From ea0021894e9df045f9d22aa8598c4f5af6219dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:25 +0000
Subject: [PATCH 104/125] fix: plot_generic_loads cannot draw zero, and
 undersamples negative, frequencies

---
 geotecha/plotting/one_d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index b45f6f4..9c83927 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1369,7 +1369,8 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
             if not omega_phase is None:
                 omega, phase = omega_phase
-                dx = min(dx, 1/(omega/(2*np.pi))/40)
+                if omega != 0:
+                    dx = min(dx, 1/(abs(omega)/(2*np.pi))/40)
 
 
 #                print(dx, omega)
-- 
2.43.0


From cc96460fc681102761c94fadf4631bbd88897694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 105/125] fix: plot_generic_loads needs trange for fixed pore
 pressure loads and (x, y) loads

---
 geotecha/plotting/one_d.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 9c83927..52ff894 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1324,14 +1324,18 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
     #determine tmax, tmin
     if trange is None:
-        for i, (triples, name, ylabel)  in enumerate(zip(load_triples, load_names, ylabels)):
-            for j, (vs_time, vs_depth, omega_phase) in enumerate(triples):
-                if i==0 and j==0:
-                    tmin = np.min(vs_time.x)
-                    tmax = np.max(vs_time.x)
-                else:
-                    tmin = min(tmin, np.min(vs_time.x))
-                    tmax = max(tmax, np.max(vs_time.x))
+        tvals = []
+        for triples in load_triples:
+            for (vs_time, vs_depth, omega_phase) in triples:
+                if vs_time is None: #fixed ppress
+                    continue
+                if not isinstance(vs_time, PolyLine):
+                    vs_time = PolyLine(*vs_time)
+                tvals.extend(vs_time.x)
+        if len(tvals) == 0:
+            tvals = [0.0, 1.0]
+        tmin = np.min(tvals)
+        tmax = np.max(tvals)
     else:
         tmin, tmax = trange
 
-- 
2.43.0


From 9addc836d5809e705b5584aaac6c28f8c8cfd27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:07 +0000
Subject: [PATCH 106/125] fix: Speccon1dVRC material plot shows kvc only if khc
 is given and fails if only khc is given

---
 geotecha/speccon/speccon1d_vrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index e65a3a7..3f7c8c6 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1445,7 +1445,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         if not self.kv is None:
             z_x.append(self.kv)
             xlabels.append('$k_v/\\overline{{k}}_v$, $\\left(\\overline{{k}}_v={:g}\\right)$'.format(self.kvref))
-        if not self.khc is None:
+        if not self.kvc is None:
             z_x.append(self.kvc)
             xlabels.append('$k_{{vc}}/\\overline{{k}}_{{vc}}$, $\\left(\\overline{{k}}_{{vc}}={:g}\\right)$'.format(self.kvcref))
         if not self.kh is None:
-- 
2.43.0


From c64865ca7dc5bb5c294016f5ce604e46200b91f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 107/125] fix: plot_specbeam_PolyLines ignores t0

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 196ab53..ac1485f 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1829,7 +1829,7 @@ class MovingPointLoads(object):
 
         """
 
-        plines, omega_phases = self.convert_to_specbeam(v=v, L=L, t0=0, x0=x0)
+        plines, omega_phases = self.convert_to_specbeam(v=v, L=L, t0=t0, x0=x0)
 
         if ax is None:
             fig, ax = plt.subplots()
-- 
2.43.0


From 5308cfb6f0996d7a6aaacd078377c0dcdf9c2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 108/125] fix: plot_vs_depth, and with it produce_plots, fails
 for a list of depths

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 52ff894..5963fa8 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1913,7 +1913,7 @@ def plot_vs_depth(x, z, line_labels=None, H = 1.0, RLzero=None,
 
 
 
-    z = transformations.depth_to_reduced_level(z, H, RLzero)
+    z = transformations.depth_to_reduced_level(np.asarray(z), H, RLzero)
 
     fig = plt.figure(**fig_prop)
     plt.plot(x, z)
-- 
2.43.0


From 137e7e8270472eb8e00889be0e45407e5976e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:56 +0000
Subject: [PATCH 109/125] fix: constant rate simulations of the creep model by
 odeint start at the first time, not at zero

---
 geotecha/constitutive_models/void_ratio_stress.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index d4d91f2..94ba8a3 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1883,7 +1883,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                 """
 
                 erate = np.interp(tt, tvals, edot)
-                evalue = self.e0 + pwise.integrate_x_y_between_xi_xj(tvals, edot, 0, tt)
+                evalue = self.e0 + pwise.integrate_x_y_between_xi_xj(tvals, edot, tvals[0], tt)
 
                 return (-x / self.kap * (
                     erate
@@ -1894,7 +1894,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
             estress = odeint(func, self.estress0, tvals_, tcrit=tvals[1:])[:,0]
             edot_ = np.interp(tvals_, tvals, edot)
-            e = self.e0 + pwise.integrate_x_y_between_xi_xj(tvals, edot, np.zeros_like(tvals_), tvals_)
+            e = self.e0 + pwise.integrate_x_y_between_xi_xj(tvals, edot, np.full_like(tvals_, tvals[0]), tvals_)
 
         else:
             e = np.zeros_like(tvals_)
@@ -1999,7 +1999,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                 """
 
                 estressrate = np.interp(tt, tvals, estressdot)
-                estressvalue = self.estress0 + pwise.integrate_x_y_between_xi_xj(tvals, estressdot, 0, tt)
+                estressvalue = self.estress0 + pwise.integrate_x_y_between_xi_xj(tvals, estressdot, tvals[0], tt)
 
                 return (-self.kap * estressrate/estressvalue
                         -self.psi/self.ta * np.exp((x-self.ea)/self.psi)
@@ -2008,7 +2008,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
             e = odeint(func, self.e0, tvals_, tcrit=tvals[1:])[:,0]
             estressdot_ = np.interp(tvals_, tvals, estressdot)
-            estress = self.estress0 + pwise.integrate_x_y_between_xi_xj(tvals, estressdot, np.zeros_like(tvals_), tvals_)
+            estress = self.estress0 + pwise.integrate_x_y_between_xi_xj(tvals, estressdot, np.full_like(tvals_, tvals[0]), tvals_)
 
         else:
             e = np.zeros_like(tvals_)
-- 
2.43.0


From 0d5a3495a793c02b15b5ddd981cb061541f90523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 110/125] fix: batch processing of directories leaves out the
 running script itself, not any file called inputoutput.py

---
 geotecha/inputoutput/inputoutput.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 7269607..4fcb7d4 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -2057,7 +2057,9 @@ class GenericInputFileArgParser(object):
                     'valid directory: {1}'.format(i, d))
 
                 [filenames.append(os.path.join(os.path.abspath(d), v)) for v in
-                    fnmatch.filter(os.listdir(d), ns.pattern) if v!=os.path.basename(__file__)]
+                    fnmatch.filter(os.listdir(d), ns.pattern)
+                    if (os.path.realpath(os.path.join(d, v)) !=
+                        os.path.realpath(sys.argv[0]))]
 
             if len(filenames)==0:
                 raise IOError("no files that match '{0}' can be found in the "
-- 
2.43.0


From 2a1782714ee36dba3942780a5e90a4e1f1d1ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:02 +0000
Subject: [PATCH 111/125] fix: combining PolyLines keeps steps and points of
 small valued lines

---
 geotecha/piecewise/piecewise_linear_1d.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 29d7afd..ce5db83 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2491,8 +2491,11 @@ class PolyLine(object):
                 xb = other.x[:]
                 yb = other.y[:]
 
-            xa, ya = remove_superfluous_from_x_y(xa, ya)
-            xb, yb = remove_superfluous_from_x_y(xb, yb)
+            # tolerance must not exceed the size of small valued lines
+            xa, ya = remove_superfluous_from_x_y(xa, ya,
+                atol=1e-8 * min(1, np.max(np.abs(ya))))
+            xb, yb = remove_superfluous_from_x_y(xb, yb,
+                atol=1e-8 * min(1, np.max(np.abs(yb))))
 
 
 
@@ -2541,7 +2544,7 @@ class PolyLine(object):
                 y = op(y1, y2)
                 y_ = op(y1_, y2_)
                 pnts.append([x, y])
-                if abs(y - y_)> (self.atol + self.rtol * abs(y_)):
+                if y != y_:
                     pnts.append([x, y_])
 
                 i= np.nonzero(ind)[0][-1]+1
@@ -2637,7 +2640,7 @@ def polyline_make_x_common(*p_lines):
                 y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)[0]
                 y1_= y1
             pnts[k].append([x,y1])
-            if abs(y1 - y1_)> (atol + rtol * abs(y1_)):
+            if y1 != y1_:
                 pnts[k].append([x, y1_])
 
         i = np.nonzero(ind)[0][-1]+1
-- 
2.43.0


From 2f62f707d650914e8b6c3dad617973e316d4312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 112/125] fix: spectral models keep the entries of small valued
 property matrices

Entries of gam and psi below 1e-8 were set to zero whatever the size of
the matrix: with e.g. rates per second all entries went.
---
 geotecha/speccon/speccon1d.py       | 24 ++++++++++++++++++++++++
 geotecha/speccon/speccon1d_unsat.py |  2 +-
 geotecha/speccon/speccon1d_vr.py    |  4 ++--
 geotecha/speccon/speccon1d_vrc.py   |  4 ++--
 geotecha/speccon/speccon1d_vrw.py   |  4 ++--
 5 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/geotecha/speccon/speccon1d.py b/geotecha/speccon/speccon1d.py
index 6032fec..028abd8 100644
--- a/geotecha/speccon/speccon1d.py
+++ b/geotecha/speccon/speccon1d.py
@@ -88,6 +88,30 @@ class Speccon1d(inputoutput.InputFileLoaderCheckerSaver):
         raise NotImplementedError("make_output")
 
 
+def zero_small_entries(A, atol=1e-8):
+    """Set the negligible entries of a square matrix to zero, in place
+
+    Entries are negligible when they are smaller than `atol`.  When diagonal
+    entries of `A` are less than one (i.e. for small valued soil properties)
+    `atol` reduces with the smallest of them.
+
+    Parameters
+    ----------
+    A : 2d numpy.ndarray
+        Square matrix.  Modified in place.
+    atol : float, optional
+        Threshold for zeroing entries. Default atol=1e-8.
+
+    """
+
+    d = np.abs(np.diag(A))
+    d = d[d > 0]
+    if len(d) > 0:
+        atol = atol * min(1, np.min(d))
+    A[np.abs(A) < atol] = 0.0
+    return
+
+
 def dim1sin_f(m,
               outz,
               tvals,
diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 451955d..2afeb97 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -821,7 +821,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
                                                   + gam_sn)
 
 
-        self.gam[np.abs(self.gam)<1e-8] = 0.0
+        speccon1d.zero_small_entries(self.gam)
 
 
         return
diff --git a/geotecha/speccon/speccon1d_vr.py b/geotecha/speccon/speccon1d_vr.py
index 93dac35..e2eb1f8 100644
--- a/geotecha/speccon/speccon1d_vr.py
+++ b/geotecha/speccon/speccon1d_vr.py
@@ -747,7 +747,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
 
         self.gam = integ.pdim1sin_af_linear(
             self.m,self.mv, implementation=self.implementation)
-        self.gam[np.abs(self.gam) < 1e-8] = 0.0
+        speccon1d.zero_small_entries(self.gam)
         return
 
     def _make_psi(self):
@@ -785,7 +785,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
                 np.sin(self.m[:, np.newaxis] * zfixed) *
                 np.sin(self.m[np.newaxis, :] * zfixed))
 
-        self.psi[np.abs(self.psi) < 1e-8]=0.0
+        speccon1d.zero_small_entries(self.psi)
         return
 
     def _make_eigs_and_v(self):
diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index 3f7c8c6..b17ebd2 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -797,7 +797,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
         self.gam = integ.pdim1sin_af_linear(
                         self.m, self.mv, implementation=self.implementation)
-        self.gam[np.abs(self.gam)<1e-8] = 0.0
+        speccon1d.zero_small_entries(self.gam)
 
         return
 
@@ -896,7 +896,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
         """
 
-        self.psi[np.abs(self.psi) < 1e-8] = 0.0
+        speccon1d.zero_small_entries(self.psi)
         Igam_psi = np.dot(np.linalg.inv(self.gam), self.psi)
         self.eigs, self.v = np.linalg.eig(Igam_psi)
         self.v = np.asarray(self.v)
diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index c97fe99..ee0da2a 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -775,7 +775,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
 
         self.gam = integ.pdim1sin_af_linear(self.m,self.mv, implementation=self.implementation)
-        self.gam[np.abs(self.gam)<1e-8]=0.0
+        speccon1d.zero_small_entries(self.gam)
         return
 
     def _make_psi_w(self):
@@ -851,7 +851,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         self.Ipsi_w = np.linalg.inv(self.psi_w)
         self.psi_s_Ipsi_w = np.dot(self.psi_s, self.Ipsi_w)
         self.psi -= np.dot(self.psi_s_Ipsi_w, self.psi_s)
-        self.psi[np.abs(self.psi) < 1e-8]=0.0
+        speccon1d.zero_small_entries(self.psi)
 
         Igam_psi = np.dot(np.linalg.inv(self.gam), self.psi)
 
-- 
2.43.0


From 11b8330559b918e363095f226c30e717a668145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:33 +0000
Subject: [PATCH 113/125] fix: SpecBeam deflections greater than one are not
 rejected for rounding

The rounding error in the imaginary part grows with the deflection.
---
 geotecha/beam_on_foundation/specbeam.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index ac1485f..cf33313 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1130,10 +1130,11 @@ class SpecBeam(object):
         self.defl_norm = np.atleast_2d(self.defl_norm)
 
         #check if complex part is small
-        if np.allclose(np.imag(self.defl_norm),0,atol=1e-12):
+        atol = 1e-12 * np.max(np.abs(self.defl_norm), initial=1)
+        if np.allclose(np.imag(self.defl_norm),0,atol=atol):
             self.defl_norm = np.real(self.defl_norm)
         else:
-            raise ValueError('Imaginary parts of self.defl are > 1e-12')
+            raise ValueError('Imaginary parts of self.defl are > {}'.format(atol))
 
         if not self.L is None:
             self.defl = self.defl_norm * self.L
-- 
2.43.0


From f91241fe941ffc4232ee25795c36741301b720b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:14 +0000
Subject: [PATCH 114/125] fix: the generated code of integrals between depths
 is a function definition

---
 geotecha/speccon/integrals_generate_code.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/speccon/integrals_generate_code.py b/geotecha/speccon/integrals_generate_code.py
index bd30156..b9b27c6 100644
--- a/geotecha/speccon/integrals_generate_code.py
+++ b/geotecha/speccon/integrals_generate_code.py
@@ -3080,7 +3080,7 @@ def dim1sin_a_linear_between():
     z2_only = z2_only.subs(v.map_to_add_index)
 
 
-    text = """dim1sin_a_linear_between(m, at, ab, zt, zb, z):
+    text = """def dim1sin_a_linear_between(m, at, ab, zt, zb, z):
     #import numpy as np #import this globally
     #import math #import this globally
 
@@ -3287,7 +3287,7 @@ def dim1_ab_linear_between():
 #    return A"""
 
 
-    text = """integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(x1a, x2a,
+    text = """def integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(x1a, x2a,
                                                                y1a, y2a,
                                                                x1b, x2b,
                                                                y1b, y2b,
-- 
2.43.0


From 6178d636d12bded35cc4fd0dbd37fbe8dca7cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 115/125] fix: large or unpicklable results of a time limited
 function neither time out nor hang

---
 geotecha/inputoutput/timeout.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/geotecha/inputoutput/timeout.py b/geotecha/inputoutput/timeout.py
index 1d20f5e..178a61a 100644
--- a/geotecha/inputoutput/timeout.py
+++ b/geotecha/inputoutput/timeout.py
@@ -70,6 +70,7 @@ idea though.
 
 
 import multiprocessing
+from multiprocessing.connection import wait
 import time
 import logging
 #logger = multiprocessing.log_to_stderr()
@@ -82,22 +83,30 @@ class TimeoutException(Exception):
 
 class RunableProcessing(multiprocessing.Process):
     def __init__(self, func, *args, **kwargs):
-        self.queue = multiprocessing.Queue(maxsize=1)
+        self._receiver, self._sender = multiprocessing.Pipe(duplex=False)
         args = (func,) + args
         multiprocessing.Process.__init__(self, target=self.run_func, args=args, kwargs=kwargs)
 
     def run_func(self, func, *args, **kwargs):
+        # results that cannot be pickled, or that are larger than the buffer of
+        # the pipe, must not leave the parent process waiting for ever
         try:
             result = func(*args, **kwargs)
-            self.queue.put((True, result))
+            self._sender.send((True, result))
         except Exception as e:
-            self.queue.put((False, e))
+            self._sender.send((False, e))
 
-    def done(self):
-        return self.queue.full()
+    def start(self):
+        multiprocessing.Process.start(self)
+        # only the child can send: its end of the pipe closes with it
+        self._sender.close()
+
+    def done(self, seconds=0):
+        """Wait, at most `seconds`, for a result or for the end of the process"""
+        return len(wait([self._receiver], seconds)) > 0
 
     def result(self):
-        return self.queue.get()
+        return self._receiver.recv()
 
 
 def timeout(seconds, force_kill=True):
@@ -106,13 +115,11 @@ def timeout(seconds, force_kill=True):
             now = time.time()
             proc = RunableProcessing(function, *args, **kwargs)
             proc.start()
-            proc.join(seconds)
-            if proc.is_alive():
+            if not proc.done(seconds):
                 if force_kill:
                     proc.terminate()
                 runtime = int(time.time() - now)
                 raise TimeoutException('timed out after {0} seconds'.format(runtime))
-            assert proc.done()
             success, result = proc.result()
             if success:
                 return result
-- 
2.43.0


From fcb58ca422b9f2dd27def5724281d3d4b1c0590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:38 +0000
Subject: [PATCH 116/125] fix: a function that takes exactly the time limit has
 timed out

---
 geotecha/inputoutput/timeout.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geotecha/inputoutput/timeout.py b/geotecha/inputoutput/timeout.py
index 178a61a..5c8774a 100644
--- a/geotecha/inputoutput/timeout.py
+++ b/geotecha/inputoutput/timeout.py
@@ -112,13 +112,17 @@ class RunableProcessing(multiprocessing.Process):
 def timeout(seconds, force_kill=True):
     def wrapper(function):
         def inner(*args, **kwargs):
-            now = time.time()
+            now = time.monotonic()
             proc = RunableProcessing(function, *args, **kwargs)
             proc.start()
-            if not proc.done(seconds):
+            in_time = proc.done(seconds)
+            if seconds is not None and time.monotonic() - now >= seconds:
+                # the result may have arrived just after the limit
+                in_time = False
+            if not in_time:
                 if force_kill:
                     proc.terminate()
-                runtime = int(time.time() - now)
+                runtime = int(time.monotonic() - now)
                 raise TimeoutException('timed out after {0} seconds'.format(runtime))
             success, result = proc.result()
             if success:
-- 
2.43.0


From 18382008241a39931f5e7c4a75b4c61359ee3982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:04 +0000
Subject: [PATCH 117/125] fix: examples use subplot numbers and set_draggable

---
 ...eam_infinite_beam_dynamic_amplification_factor.py |  4 ++--
 .../example_1d_vr_001a_schiffmanandstein1970.py      | 12 ++++++------
 .../example_1d_vr_001b_schiffmanandstein1970.py      | 12 ++++++------
 .../speccon/speccon1d_unsat_3layer_shanetal2014.py   |  4 ++--
 ...con1d_unsat_sinusoidal_bot_air_BC_shanetal2012.py |  4 ++--
 ...n1d_unsat_sinusoidal_top_water_BC_shanetal2012.py |  4 ++--
 ..._unsat_surcharge_ka_divide_kw_100_shanetal2012.py |  8 ++++----
 ...n1d_vr_4layers_vert_schiffmanandstein1970_Fig2.py |  4 ++--
 ...rzaghi_with_gradient_bottom_boundary_condition.py |  8 ++++----
 ...1d_vr_mimic_terzaghi_with_pumping_at_mid_depth.py |  8 ++++----
 ...eccon1d_vr_radial_mimic_hansbo1981_with_vacuum.py |  8 ++++----
 ...r_vert_and_radial_drainage_tangandonitsuka2000.py |  8 ++++----
 ...nd_radial_equal_vs_free_strain_nogmaiandli2003.py |  8 ++++----
 ..._vert_with_depth_dependent_mv_kv_zhuandyin2012.py |  6 +++---
 .../speccon/speccon1d_vrc_stone_column_luetal2010.py | 10 +++++-----
 ..._column_luetal2010_linear_depth_dependent_load.py | 10 +++++-----
 ...penetrating_drain_with_kw_of_0_in_bottom_layer.py |  8 ++++----
 ...l_with_well_resis_drainage_tangandonitsuka2000.py |  8 ++++----
 ...well_resistance_linear_with_depth_dengetal2013.py |  4 ++--
 19 files changed, 69 insertions(+), 69 deletions(-)

diff --git a/examples/specbeam/specbeam_infinite_beam_dynamic_amplification_factor.py b/examples/specbeam/specbeam_infinite_beam_dynamic_amplification_factor.py
index 1f6242c..94de005 100644
--- a/examples/specbeam/specbeam_infinite_beam_dynamic_amplification_factor.py
+++ b/examples/specbeam/specbeam_infinite_beam_dynamic_amplification_factor.py
@@ -58,7 +58,7 @@ article_formatting = True
 fig = plt.figure(figsize=(3.54,3.54))
 matplotlib.rcParams.update({'font.size': 11})
 
-ax = fig.add_subplot("111")
+ax = fig.add_subplot(111)
 
 if alphas is None:
     alphas = np.linspace(1e-5, 3, 100)
@@ -191,7 +191,7 @@ leg = ax.legend(title="$\\mathrm{Damping\ ratio,\ }\\beta$",
                 handlelength=2,
                 fontsize=8
                 )
-leg.draggable()
+leg.set_draggable(True)
 
 ax.xaxis.labelpad = -1
 ax.yaxis.labelpad = 0
diff --git a/examples/speccon/example_1d_vr_001a_schiffmanandstein1970.py b/examples/speccon/example_1d_vr_001a_schiffmanandstein1970.py
index 65361ee..0eb95c2 100644
--- a/examples/speccon/example_1d_vr_001a_schiffmanandstein1970.py
+++ b/examples/speccon/example_1d_vr_001a_schiffmanandstein1970.py
@@ -17,18 +17,18 @@ with open(fname) as f:
     template = f.read()
 
 fig = plt.figure(figsize=(15,8))
-ax1 = fig.add_subplot('131')
+ax1 = fig.add_subplot(131)
 ax1.set_xlabel('ppress')
 ax1.set_ylabel('depth')
 ax1.invert_yaxis()
 ax1.grid()
 
-ax2 = fig.add_subplot('132')
+ax2 = fig.add_subplot(132)
 ax2.set_xlabel('time')
 ax2.set_ylabel('average pore pressure')
 
 
-ax3 = fig.add_subplot('133')
+ax3 = fig.add_subplot(133)
 ax3.set_xlabel('time')
 ax3.set_ylabel('settlement')
 ax3.invert_yaxis()
@@ -55,12 +55,12 @@ for neig in np.arange(2,8,1):
 
 ax1.set_title('ppress at t={:g} days'.format(a.tvals[tindex]))
 leg1 = ax1.legend(title='neig',loc=6)
-leg1.draggable()
+leg1.set_draggable(True)
 
 leg2 = ax2.legend(title='neig')
-leg2.draggable()
+leg2.set_draggable(True)
 
 leg3 = ax3.legend(title='neig')
-leg3.draggable()
+leg3.set_draggable(True)
 
 plt.show()
\ No newline at end of file
diff --git a/examples/speccon/example_1d_vr_001b_schiffmanandstein1970.py b/examples/speccon/example_1d_vr_001b_schiffmanandstein1970.py
index 339459f..f9d2e0e 100644
--- a/examples/speccon/example_1d_vr_001b_schiffmanandstein1970.py
+++ b/examples/speccon/example_1d_vr_001b_schiffmanandstein1970.py
@@ -78,18 +78,18 @@ author = "Dr. Rohan Walker"
 
 
 fig = plt.figure(figsize=(15,8))
-ax1 = fig.add_subplot('131')
+ax1 = fig.add_subplot(131)
 ax1.set_xlabel('ppress')
 ax1.set_ylabel('depth')
 ax1.invert_yaxis()
 ax1.grid()
 
-ax2 = fig.add_subplot('132')
+ax2 = fig.add_subplot(132)
 ax2.set_xlabel('time')
 ax2.set_ylabel('average pore pressure')
 
 
-ax3 = fig.add_subplot('133')
+ax3 = fig.add_subplot(133)
 ax3.set_xlabel('time')
 ax3.set_ylabel('settlement')
 ax3.invert_yaxis()
@@ -108,12 +108,12 @@ for h in h_values:
 leg_title='layer thickness'
 ax1.set_title('ppress at t={:g} days'.format(tprofile))
 leg1 = ax1.legend(title=leg_title,loc=6)
-leg1.draggable()
+leg1.set_draggable(True)
 
 leg2 = ax2.legend(title=leg_title)
-leg2.draggable()
+leg2.set_draggable(True)
 
 leg3 = ax3.legend(title=leg_title)
-leg3.draggable()
+leg3.set_draggable(True)
 
 plt.show()
\ No newline at end of file
diff --git a/examples/speccon/speccon1d_unsat_3layer_shanetal2014.py b/examples/speccon/speccon1d_unsat_3layer_shanetal2014.py
index ea1a310..59adea3 100644
--- a/examples/speccon/speccon1d_unsat_3layer_shanetal2014.py
+++ b/examples/speccon/speccon1d_unsat_3layer_shanetal2014.py
@@ -374,7 +374,7 @@ def shanetal2014_3_layers_instant():
     leg = ax.legend(loc=3, labelspacing=0.0)
     plt.setp(leg.get_title(),fontsize=8)
     leg.get_frame().set_edgecolor('white')
-    leg.draggable()
+    leg.set_draggable(True)
     fig.subplots_adjust(top=0.97, bottom=0.15, left=0.2, right=0.94)
 
 
@@ -406,7 +406,7 @@ def shanetal2014_3_layers_instant():
     leg = ax.legend(loc=1, labelspacing=0.0)
     plt.setp(leg.get_title(),fontsize=8)
     leg.get_frame().set_edgecolor('white')
-    leg.draggable()
+    leg.set_draggable(True)
     fig2.subplots_adjust(top=0.97, bottom=0.15, left=0.2, right=0.94)
 
     return fig, fig2
diff --git a/examples/speccon/speccon1d_unsat_sinusoidal_bot_air_BC_shanetal2012.py b/examples/speccon/speccon1d_unsat_sinusoidal_bot_air_BC_shanetal2012.py
index 8cebfb5..4b88ff1 100644
--- a/examples/speccon/speccon1d_unsat_sinusoidal_bot_air_BC_shanetal2012.py
+++ b/examples/speccon/speccon1d_unsat_sinusoidal_bot_air_BC_shanetal2012.py
@@ -172,7 +172,7 @@ title = ("Shan et al. (2012) Unsaturated soil. instant surcharge"
 fig = plt.figure(figsize=(9,6))
 fig.suptitle(title)
 #z vs ua
-ax1 = fig.add_subplot("121")
+ax1 = fig.add_subplot(121)
 ax1.set_xlabel('Excess pore pressure in air, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -185,7 +185,7 @@ ax1.plot(a.pora, z,
          label='calculated')
 
 #z vs uw
-ax2 = fig.add_subplot("122")
+ax2 = fig.add_subplot(122)
 ax2.set_xlabel('Excess pore pressure in water, kPa')
 ax2.set_ylabel('Depth')
 ax2.invert_yaxis()
diff --git a/examples/speccon/speccon1d_unsat_sinusoidal_top_water_BC_shanetal2012.py b/examples/speccon/speccon1d_unsat_sinusoidal_top_water_BC_shanetal2012.py
index 286be60..d9e0fa2 100644
--- a/examples/speccon/speccon1d_unsat_sinusoidal_top_water_BC_shanetal2012.py
+++ b/examples/speccon/speccon1d_unsat_sinusoidal_top_water_BC_shanetal2012.py
@@ -167,7 +167,7 @@ title = ("Shan et al. (2012) Unsaturated soil. instant surcharge + \nsinusoidal
 fig = plt.figure(figsize=(9,6))
 fig.suptitle(title)
 #z vs ua
-ax1 = fig.add_subplot("121")
+ax1 = fig.add_subplot(121)
 ax1.set_xlabel('Excess pore pressure in air, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -180,7 +180,7 @@ ax1.plot(a.pora, z,
          label='calculated')
 
 #z vs uw
-ax2 = fig.add_subplot("122")
+ax2 = fig.add_subplot(122)
 ax2.set_xlabel('Excess pore pressure in water, kPa')
 ax2.set_ylabel('Depth')
 ax2.invert_yaxis()
diff --git a/examples/speccon/speccon1d_unsat_surcharge_ka_divide_kw_100_shanetal2012.py b/examples/speccon/speccon1d_unsat_surcharge_ka_divide_kw_100_shanetal2012.py
index a3cbada..49a7c68 100644
--- a/examples/speccon/speccon1d_unsat_surcharge_ka_divide_kw_100_shanetal2012.py
+++ b/examples/speccon/speccon1d_unsat_surcharge_ka_divide_kw_100_shanetal2012.py
@@ -156,7 +156,7 @@ title = ("Shan et al. (2012) Unsaturated soil, instant surcharge, ka/kw=100 Fig2
 fig = plt.figure(figsize=(13,6))
 fig.suptitle(title)
 #z vs ua
-ax1 = fig.add_subplot("131")
+ax1 = fig.add_subplot(131)
 ax1.set_ylabel('Excess pore pressure in air phase, kPa')
 ax1.set_xlabel('Time')
 ax1.set_xscale('log')
@@ -170,7 +170,7 @@ ax1.plot(tua, a.pora[0,:len(tua)],
 
 
 # settlement vs t
-ax3 = fig.add_subplot("133")
+ax3 = fig.add_subplot(133)
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.set_xscale('log')
@@ -183,10 +183,10 @@ ax3.plot(tset, a.set[0],
          label='calculated')
 
 leg = ax3.legend()
-leg.draggable()
+leg.set_draggable(True)
 
 #z vs uw
-ax4 = fig.add_subplot("132")
+ax4 = fig.add_subplot(132)
 ax4.set_ylabel('Excess pore pressure in water phase, kPa')
 ax4.set_xlabel('Time')
 ax4.set_xscale('log')
diff --git a/examples/speccon/speccon1d_vr_4layers_vert_schiffmanandstein1970_Fig2.py b/examples/speccon/speccon1d_vr_4layers_vert_schiffmanandstein1970_Fig2.py
index 9f2b63e..7387b8d 100644
--- a/examples/speccon/speccon1d_vr_4layers_vert_schiffmanandstein1970_Fig2.py
+++ b/examples/speccon/speccon1d_vr_4layers_vert_schiffmanandstein1970_Fig2.py
@@ -61,7 +61,7 @@ a.make_all()
 # Make a custom plot (alternately use "show_figures=True" in the input for
 # generic plots)
 fig = plt.figure(figsize=(6,4))
-ax = fig.add_subplot('111')
+ax = fig.add_subplot(111)
 ax.set_xlabel('Pore pressure, u/q')
 ax.set_ylabel('Depth, feet')
 ax.invert_yaxis()
@@ -72,7 +72,7 @@ lineObjects = plt.plot(a.por, a.ppress_z * a.H)
 
 leg_title='Time (days)'
 leg = ax.legend(lineObjects, a.tvals, title=leg_title, loc=6)
-leg.draggable()
+leg.set_draggable(True)
 plt.tight_layout()
 
 plt.show()
diff --git a/examples/speccon/speccon1d_vr_mimic_terzaghi_with_gradient_bottom_boundary_condition.py b/examples/speccon/speccon1d_vr_mimic_terzaghi_with_gradient_bottom_boundary_condition.py
index acfba20..e4e59c8 100644
--- a/examples/speccon/speccon1d_vr_mimic_terzaghi_with_gradient_bottom_boundary_condition.py
+++ b/examples/speccon/speccon1d_vr_mimic_terzaghi_with_gradient_bottom_boundary_condition.py
@@ -171,7 +171,7 @@ title = ("Mimic Terzaghi 1D by using time dependent bottom "
 fig = plt.figure(figsize=(12,5))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot("131")
+ax1 = fig.add_subplot(131)
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Normalised depth')
 ax1.invert_yaxis()
@@ -184,7 +184,7 @@ ax1.plot(a.por, z,
          label='calculated')
 
 # avp vs t
-ax2 = fig.add_subplot("132")
+ax2 = fig.add_subplot(132)
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -197,10 +197,10 @@ ax2.plot(t, a.avp[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax2.legend()
-leg.draggable()
+leg.set_draggable(True)
 
 # settlement vs t
-ax3 = fig.add_subplot("133")
+ax3 = fig.add_subplot(133)
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
diff --git a/examples/speccon/speccon1d_vr_mimic_terzaghi_with_pumping_at_mid_depth.py b/examples/speccon/speccon1d_vr_mimic_terzaghi_with_pumping_at_mid_depth.py
index 12b7056..74da61b 100644
--- a/examples/speccon/speccon1d_vr_mimic_terzaghi_with_pumping_at_mid_depth.py
+++ b/examples/speccon/speccon1d_vr_mimic_terzaghi_with_pumping_at_mid_depth.py
@@ -176,7 +176,7 @@ title = ("Mimic Terzaghi 1D by using time dependent pumping "
 fig = plt.figure(figsize=(12,5))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot("131")
+ax1 = fig.add_subplot(131)
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Normalised depth')
 ax1.invert_yaxis()
@@ -189,7 +189,7 @@ ax1.plot(a.por, z,
          label='calculated')
 
 # avp vs t
-ax2 = fig.add_subplot("132")
+ax2 = fig.add_subplot(132)
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -202,10 +202,10 @@ ax2.plot(t, a.avp[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax2.legend()
-leg.draggable()
+leg.set_draggable(True)
 
 # settlement vs t
-ax3 = fig.add_subplot("133")
+ax3 = fig.add_subplot(133)
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
diff --git a/examples/speccon/speccon1d_vr_radial_mimic_hansbo1981_with_vacuum.py b/examples/speccon/speccon1d_vr_radial_mimic_hansbo1981_with_vacuum.py
index 76c73bc..181dfff 100644
--- a/examples/speccon/speccon1d_vr_radial_mimic_hansbo1981_with_vacuum.py
+++ b/examples/speccon/speccon1d_vr_radial_mimic_hansbo1981_with_vacuum.py
@@ -79,7 +79,7 @@ title = ("Mimic Hansbo 1981 with vacuum.")
 fig = plt.figure(figsize=(12,5))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot("131")
+ax1 = fig.add_subplot(131)
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Normalised depth')
 ax1.invert_yaxis()
@@ -92,7 +92,7 @@ ax1.plot(a.por, a.ppress_z,
          label='calculated')
 
 # avp vs t
-ax2 = fig.add_subplot("132")
+ax2 = fig.add_subplot(132)
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -107,7 +107,7 @@ ax2.plot(t, a.avp[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot("133")
+ax3 = fig.add_subplot(133)
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -121,7 +121,7 @@ ax3.plot(t, a.set[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax3.legend()
-leg.draggable()
+leg.set_draggable(True)
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
diff --git a/examples/speccon/speccon1d_vr_vert_and_radial_drainage_tangandonitsuka2000.py b/examples/speccon/speccon1d_vr_vert_and_radial_drainage_tangandonitsuka2000.py
index 050e06a..3762f67 100644
--- a/examples/speccon/speccon1d_vr_vert_and_radial_drainage_tangandonitsuka2000.py
+++ b/examples/speccon/speccon1d_vr_vert_and_radial_drainage_tangandonitsuka2000.py
@@ -207,7 +207,7 @@ title = ("Tang and Onitsuka (2000) vertical and radial drainage")
 fig = plt.figure(figsize=(12,5))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot("131")
+ax1 = fig.add_subplot(131)
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -220,7 +220,7 @@ ax1.plot(a.por, z,
          label='calculated')
 
 # avp vs t
-ax2 = fig.add_subplot("132")
+ax2 = fig.add_subplot(132)
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -235,7 +235,7 @@ ax2.plot(t, a.avp[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot("133")
+ax3 = fig.add_subplot(133)
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -249,7 +249,7 @@ ax3.plot(t, a.set[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax3.legend()
-leg.draggable()
+leg.set_draggable(True)
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
diff --git a/examples/speccon/speccon1d_vr_vert_and_radial_equal_vs_free_strain_nogmaiandli2003.py b/examples/speccon/speccon1d_vr_vert_and_radial_equal_vs_free_strain_nogmaiandli2003.py
index 34160fb..decca67 100644
--- a/examples/speccon/speccon1d_vr_vert_and_radial_equal_vs_free_strain_nogmaiandli2003.py
+++ b/examples/speccon/speccon1d_vr_vert_and_radial_equal_vs_free_strain_nogmaiandli2003.py
@@ -225,7 +225,7 @@ title = ("Nogami and li (2003) vertical and radial drainage"
 fig = plt.figure(figsize=(12,5))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot("131")
+ax1 = fig.add_subplot(131)
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -238,7 +238,7 @@ ax1.plot(a.por, z,
          label='calculated')
 
 # avp vs t
-ax2 = fig.add_subplot("132")
+ax2 = fig.add_subplot(132)
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -253,7 +253,7 @@ ax2.plot(t, a.avp[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot("133")
+ax3 = fig.add_subplot(133)
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -267,7 +267,7 @@ ax3.plot(t, a.set[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax3.legend()
-leg.draggable()
+leg.set_draggable(True)
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
diff --git a/examples/speccon/speccon1d_vr_vert_with_depth_dependent_mv_kv_zhuandyin2012.py b/examples/speccon/speccon1d_vr_vert_with_depth_dependent_mv_kv_zhuandyin2012.py
index 82cfc0e..e756b8c 100644
--- a/examples/speccon/speccon1d_vr_vert_with_depth_dependent_mv_kv_zhuandyin2012.py
+++ b/examples/speccon/speccon1d_vr_vert_with_depth_dependent_mv_kv_zhuandyin2012.py
@@ -146,7 +146,7 @@ title = ("Zhu and Yin (2012) mv = 1.2*(1+0.5*z/H)**2, kv = 1.6*(1+0.5*z/H)**-2")
 fig = plt.figure(figsize=(12,5))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot("121")
+ax1 = fig.add_subplot(121)
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -161,7 +161,7 @@ ax1.plot(a.por, z,
 
 
 # settlement vs t
-ax3 = fig.add_subplot("122")
+ax3 = fig.add_subplot(122)
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -175,7 +175,7 @@ ax3.plot(t, a.set[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax3.legend()
-leg.draggable()
+leg.set_draggable(True)
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
diff --git a/examples/speccon/speccon1d_vrc_stone_column_luetal2010.py b/examples/speccon/speccon1d_vrc_stone_column_luetal2010.py
index 65072ac..c2c08a6 100644
--- a/examples/speccon/speccon1d_vrc_stone_column_luetal2010.py
+++ b/examples/speccon/speccon1d_vrc_stone_column_luetal2010.py
@@ -319,7 +319,7 @@ title = ("Lu et al (2010) Stone column, load is uniform with depth")
 fig = plt.figure(figsize=(13,6))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot("141")
+ax1 = fig.add_subplot(141)
 ax1.set_xlabel('Excess pore pressure \nin soil, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -333,7 +333,7 @@ ax1.plot(a.pors, z,
 
 
 # avp vs t
-ax2 = fig.add_subplot("143")
+ax2 = fig.add_subplot(143)
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore press \n(soil and column), kPa')
 ax2.set_xscale('log')
@@ -348,7 +348,7 @@ ax2.plot(t, a.avp[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot("144")
+ax3 = fig.add_subplot(144)
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -363,10 +363,10 @@ ax3.plot(t, a.set[0],
          label='calculated')
 
 leg = ax3.legend()
-leg.draggable()
+leg.set_draggable(True)
 
 
-ax4 = fig.add_subplot("142")
+ax4 = fig.add_subplot(142)
 ax4.set_xlabel('Excess pore pressure \nin column, kPa')
 ax4.set_ylabel('Depth')
 ax4.invert_yaxis()
diff --git a/examples/speccon/speccon1d_vrc_stone_column_luetal2010_linear_depth_dependent_load.py b/examples/speccon/speccon1d_vrc_stone_column_luetal2010_linear_depth_dependent_load.py
index 467d111..ce5c386 100644
--- a/examples/speccon/speccon1d_vrc_stone_column_luetal2010_linear_depth_dependent_load.py
+++ b/examples/speccon/speccon1d_vrc_stone_column_luetal2010_linear_depth_dependent_load.py
@@ -322,7 +322,7 @@ title = ("Lu et al (2010) Stone column, load is linear with depth")
 fig = plt.figure(figsize=(13,6))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot("141")
+ax1 = fig.add_subplot(141)
 ax1.set_xlabel('Excess pore pressure \nin soil, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -336,7 +336,7 @@ ax1.plot(a.pors, z,
 
 
 # avp vs t
-ax2 = fig.add_subplot("143")
+ax2 = fig.add_subplot(143)
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore press \n (soil and column), kPa')
 ax2.set_xscale('log')
@@ -351,7 +351,7 @@ ax2.plot(t, a.avp[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot("144")
+ax3 = fig.add_subplot(144)
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -366,10 +366,10 @@ ax3.plot(t, a.set[0],
          label='calculated')
 
 leg = ax3.legend()
-leg.draggable()
+leg.set_draggable(True)
 
 
-ax4 = fig.add_subplot("142")
+ax4 = fig.add_subplot(142)
 ax4.set_xlabel('Excess pore pressure \nin column, kPa')
 ax4.set_ylabel('Depth')
 ax4.invert_yaxis()
diff --git a/examples/speccon/speccon1d_vrw_mimic_partially_penetrating_drain_with_kw_of_0_in_bottom_layer.py b/examples/speccon/speccon1d_vrw_mimic_partially_penetrating_drain_with_kw_of_0_in_bottom_layer.py
index 7ccb48a..8bb57b0 100644
--- a/examples/speccon/speccon1d_vrw_mimic_partially_penetrating_drain_with_kw_of_0_in_bottom_layer.py
+++ b/examples/speccon/speccon1d_vrw_mimic_partially_penetrating_drain_with_kw_of_0_in_bottom_layer.py
@@ -462,7 +462,7 @@ title = ("Partially penetrating drain by setting kw=0 in bottom layer")
 fig = plt.figure(figsize=(13,6))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot("131")
+ax1 = fig.add_subplot(131)
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -475,7 +475,7 @@ ax1.plot(a.por, z,
          label='calculated')
 
 # avp vs t
-ax2 = fig.add_subplot("132")
+ax2 = fig.add_subplot(132)
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -490,7 +490,7 @@ ax2.plot(t, a.avp[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot("133")
+ax3 = fig.add_subplot(133)
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -504,7 +504,7 @@ ax3.plot(t, a.set[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax3.legend()
-leg.draggable()
+leg.set_draggable(True)
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
diff --git a/examples/speccon/speccon1d_vrw_vert_and_radial_with_well_resis_drainage_tangandonitsuka2000.py b/examples/speccon/speccon1d_vrw_vert_and_radial_with_well_resis_drainage_tangandonitsuka2000.py
index dbf9828..58adf08 100644
--- a/examples/speccon/speccon1d_vrw_vert_and_radial_with_well_resis_drainage_tangandonitsuka2000.py
+++ b/examples/speccon/speccon1d_vrw_vert_and_radial_with_well_resis_drainage_tangandonitsuka2000.py
@@ -255,7 +255,7 @@ title = ("Tang and Onitsuka (2000) vertical and radial drainage including well r
 fig = plt.figure(figsize=(13,6))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot("131")
+ax1 = fig.add_subplot(131)
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -271,7 +271,7 @@ ax1.plot(por_no_well, z,
          label='no well resis')
 
 # avp vs t
-ax2 = fig.add_subplot("132")
+ax2 = fig.add_subplot(132)
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -289,7 +289,7 @@ ax2.plot(t, avp_no_well[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot("133")
+ax3 = fig.add_subplot(133)
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -306,7 +306,7 @@ ax3.plot(t, settle_no_well[0],
          ls="None", color='green', marker="+", ms=5,
          label='$k_w=\\infty$')
 leg = ax3.legend()
-leg.draggable()
+leg.set_draggable(True)
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
diff --git a/examples/speccon/speccon1d_vrw_well_resistance_linear_with_depth_dengetal2013.py b/examples/speccon/speccon1d_vrw_well_resistance_linear_with_depth_dengetal2013.py
index b878199..9900945 100644
--- a/examples/speccon/speccon1d_vrw_well_resistance_linear_with_depth_dengetal2013.py
+++ b/examples/speccon/speccon1d_vrw_well_resistance_linear_with_depth_dengetal2013.py
@@ -113,7 +113,7 @@ title = ("Deng et al. (2013) Radial drainage with linear depth dependent well re
 fig = plt.figure(figsize=(8,6))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot("111")
+ax1 = fig.add_subplot(111)
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -130,7 +130,7 @@ for i, line in enumerate(ax1.get_lines()[-2:]):
     line.set_label("calculated t={:d}".format(int(t[i])))
 
 leg = ax1.legend(loc=3)
-leg.draggable()
+leg.set_draggable(True)
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
-- 
2.43.0


From 68f3f5654124c0809187a0434b55ef747b1b5962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:56 +0000
Subject: [PATCH 118/125] fix: drawing an analysis does not use up its
 plot_properties

---
 geotecha/consolidation/nogamiandli2003.py      |  6 +++---
 .../consolidation/schiffmanandstein1970.py     |  6 +++---
 geotecha/speccon/speccon1d_unsat.py            | 18 +++++++++---------
 geotecha/speccon/speccon1d_vr.py               | 10 +++++-----
 geotecha/speccon/speccon1d_vrc.py              | 18 +++++++++---------
 geotecha/speccon/speccon1d_vrw.py              | 12 ++++++------
 6 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 4fda1f7..136a9f6 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -808,7 +808,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
         t = self.tpor
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'+extra
 
@@ -829,7 +829,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'+extra
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -848,7 +848,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'surface settlement'+extra
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 45d47ed..f9a9582 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -313,7 +313,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         t = self.tpor
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -330,7 +330,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -346,7 +346,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'surface settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 2afeb97..0b9a937 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1285,7 +1285,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        porw_prop = self.plot_properties.pop('porw', dict())
+        porw_prop = dict(self.plot_properties.get('porw', dict()))
         if not 'xlabel' in porw_prop:
             porw_prop['xlabel'] = 'Pore water pressure'
 
@@ -1302,7 +1302,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        pora_prop = self.plot_properties.pop('pora', dict())
+        pora_prop = dict(self.plot_properties.get('pora', dict()))
         if not 'xlabel' in pora_prop:
             pora_prop['xlabel'] = 'Pore air pressure'
 
@@ -1325,7 +1325,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avpw_prop = self.plot_properties.pop('avpw', dict())
+        avpw_prop = dict(self.plot_properties.get('avpw', dict()))
         if not 'ylabel' in avpw_prop:
             avpw_prop['ylabel'] = 'Average pore water pressure'
         fig_avpw = geotecha.plotting.one_d.plot_vs_time(t, self.avpw.T,
@@ -1344,7 +1344,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avpa_prop = self.plot_properties.pop('avpa', dict())
+        avpa_prop = dict(self.plot_properties.get('avpa', dict()))
         if not 'ylabel' in avpa_prop:
             avpa_prop['ylabel'] = 'Average pore air pressure'
         fig_avpa = geotecha.plotting.one_d.plot_vs_time(t, self.avpa.T,
@@ -1363,7 +1363,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1383,7 +1383,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('setw', dict())
+        set_prop = dict(self.plot_properties.get('setw', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Water settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.setw.T,
@@ -1403,7 +1403,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('seta', dict())
+        set_prop = dict(self.plot_properties.get('seta', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Air settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.seta.T,
@@ -1489,7 +1489,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', dict()))
 
         z_x=[]
         xlabels=[]
@@ -1526,7 +1526,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', dict()))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vr.py b/geotecha/speccon/speccon1d_vr.py
index e2eb1f8..3e74986 100644
--- a/geotecha/speccon/speccon1d_vr.py
+++ b/geotecha/speccon/speccon1d_vr.py
@@ -1208,7 +1208,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1230,7 +1230,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1248,7 +1248,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1308,7 +1308,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
 
     def _plot_materials(self):
         """Prepare material property plots"""
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', dict()))
 
         z_x=[]
         xlabels=[]
@@ -1334,7 +1334,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
     def _plot_loads(self):
         """Prepare plots of loading."""
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', dict()))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index b17ebd2..b154b49 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1239,7 +1239,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('pors', dict())
+        por_prop = dict(self.plot_properties.get('pors', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Soil pore pressure'
 
@@ -1256,7 +1256,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        porc_prop = self.plot_properties.pop('porc', dict())
+        porc_prop = dict(self.plot_properties.get('porc', dict()))
         if not 'xlabel' in porc_prop:
             porc_prop['xlabel'] = 'Column pore pressure'
 
@@ -1274,7 +1274,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1296,7 +1296,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1314,7 +1314,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avps', dict())
+        avp_prop = dict(self.plot_properties.get('avps', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average soil pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avps.T,
@@ -1332,7 +1332,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avpc', dict())
+        avp_prop = dict(self.plot_properties.get('avpc', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average column pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avpc.T,
@@ -1350,7 +1350,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1434,7 +1434,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', dict()))
 
         z_x=[]
         xlabels=[]
@@ -1467,7 +1467,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', dict()))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index ee0da2a..e4c816f 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1176,7 +1176,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('porwell', dict())
+        por_prop = dict(self.plot_properties.get('porwell', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Drain Pore pressure'
 
@@ -1195,7 +1195,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1217,7 +1217,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1235,7 +1235,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1301,7 +1301,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', dict()))
 
         z_x=[]
         xlabels=[]
@@ -1331,7 +1331,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', dict()))
         load_triples=[]
         load_names = []
         ylabels=[]
-- 
2.43.0


From 8c9661d67bbf6f83b1b0ad5b9b8384434718db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:33 +0000
Subject: [PATCH 119/125] fix: axle positions already returned do not change
 with the next call

---
 geotecha/beam_on_foundation/specbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index cf33313..2c199f3 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1709,7 +1709,7 @@ class MovingPointLoads(object):
         self.pnow[:] = self.p
 
         self.pnow[((t< self.start_time) | (t>self.end_time))] = 0
-        return self.xnow, self.pnow
+        return self.xnow.copy(), self.pnow.copy()
 
 
     def convert_to_specbeam(self, v=None, L=None, t0=None, x0=None):
@@ -1880,7 +1880,7 @@ class MovingPointLoads(object):
 
         self.xnow+= x0 + v0*(t-t0)
 
-        return self.xnow
+        return self.xnow.copy()
 
     def plotme(self, ax=None,t=0, v0=0, t0=0, x0=0, xlim=None, ylim=None):
         """Plot the load at time t
-- 
2.43.0


From 5c5b82d475b426c8244fbf7a68231ee4a21c5b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:33 +0000
Subject: [PATCH 120/125] fix: beam animations in real units show stationary
 loads in real units

---
 geotecha/beam_on_foundation/specbeam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 2c199f3..63563bf 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1316,9 +1316,9 @@ class SpecBeam(object):
             if self.has_moving_loads:
                 moving_loads = self.moving_loads
             if self.has_stationary_loads:
-                stationary_loads_x = self.stationary_loads_x_norm
-                stationary_loads_vs_t = self.stationary_loads_vs_t_norm
-                stationary_loads_omega_phase = self.stationary_loads_omega_phase_norm
+                stationary_loads_x = self.stationary_loads_x
+                stationary_loads_vs_t = self.stationary_loads_vs_t
+                stationary_loads_omega_phase = self.stationary_loads_omega_phase
             ax.set_xlabel("x")
             ax.set_ylabel("w")
             ax2.set_ylabel("Fz")
-- 
2.43.0


From 130a27efc58cfa858759d2960165c503c758a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:31 +0000
Subject: [PATCH 121/125] leave the examples as they were

---
 ...eam_infinite_beam_dynamic_amplification_factor.py |  4 ++--
 .../example_1d_vr_001a_schiffmanandstein1970.py      | 12 ++++++------
 .../example_1d_vr_001b_schiffmanandstein1970.py      | 12 ++++++------
 .../speccon/speccon1d_unsat_3layer_shanetal2014.py   |  4 ++--
 ...con1d_unsat_sinusoidal_bot_air_BC_shanetal2012.py |  4 ++--
 ...n1d_unsat_sinusoidal_top_water_BC_shanetal2012.py |  4 ++--
 ..._unsat_surcharge_ka_divide_kw_100_shanetal2012.py |  8 ++++----
 ...n1d_vr_4layers_vert_schiffmanandstein1970_Fig2.py |  4 ++--
 ...rzaghi_with_gradient_bottom_boundary_condition.py |  8 ++++----
 ...1d_vr_mimic_terzaghi_with_pumping_at_mid_depth.py |  8 ++++----
 ...eccon1d_vr_radial_mimic_hansbo1981_with_vacuum.py |  8 ++++----
 ...r_vert_and_radial_drainage_tangandonitsuka2000.py |  8 ++++----
 ...nd_radial_equal_vs_free_strain_nogmaiandli2003.py |  8 ++++----
 ..._vert_with_depth_dependent_mv_kv_zhuandyin2012.py |  6 +++---
 .../speccon/speccon1d_vrc_stone_column_luetal2010.py | 10 +++++-----
 ..._column_luetal2010_linear_depth_dependent_load.py | 10 +++++-----
 ...penetrating_drain_with_kw_of_0_in_bottom_layer.py |  8 ++++----
 ...l_with_well_resis_drainage_tangandonitsuka2000.py |  8 ++++----
 ...well_resistance_linear_with_depth_dengetal2013.py |  4 ++--
 19 files changed, 69 insertions(+), 69 deletions(-)

diff --git a/examples/specbeam/specbeam_infinite_beam_dynamic_amplification_factor.py b/examples/specbeam/specbeam_infinite_beam_dynamic_amplification_factor.py
index 94de005..1f6242c 100644
--- a/examples/specbeam/specbeam_infinite_beam_dynamic_amplification_factor.py
+++ b/examples/specbeam/specbeam_infinite_beam_dynamic_amplification_factor.py
@@ -58,7 +58,7 @@ article_formatting = True
 fig = plt.figure(figsize=(3.54,3.54))
 matplotlib.rcParams.update({'font.size': 11})
 
-ax = fig.add_subplot(111)
+ax = fig.add_subplot("111")
 
 if alphas is None:
     alphas = np.linspace(1e-5, 3, 100)
@@ -191,7 +191,7 @@ leg = ax.legend(title="$\\mathrm{Damping\ ratio,\ }\\beta$",
                 handlelength=2,
                 fontsize=8
                 )
-leg.set_draggable(True)
+leg.draggable()
 
 ax.xaxis.labelpad = -1
 ax.yaxis.labelpad = 0
diff --git a/examples/speccon/example_1d_vr_001a_schiffmanandstein1970.py b/examples/speccon/example_1d_vr_001a_schiffmanandstein1970.py
index 0eb95c2..65361ee 100644
--- a/examples/speccon/example_1d_vr_001a_schiffmanandstein1970.py
+++ b/examples/speccon/example_1d_vr_001a_schiffmanandstein1970.py
@@ -17,18 +17,18 @@ with open(fname) as f:
     template = f.read()
 
 fig = plt.figure(figsize=(15,8))
-ax1 = fig.add_subplot(131)
+ax1 = fig.add_subplot('131')
 ax1.set_xlabel('ppress')
 ax1.set_ylabel('depth')
 ax1.invert_yaxis()
 ax1.grid()
 
-ax2 = fig.add_subplot(132)
+ax2 = fig.add_subplot('132')
 ax2.set_xlabel('time')
 ax2.set_ylabel('average pore pressure')
 
 
-ax3 = fig.add_subplot(133)
+ax3 = fig.add_subplot('133')
 ax3.set_xlabel('time')
 ax3.set_ylabel('settlement')
 ax3.invert_yaxis()
@@ -55,12 +55,12 @@ for neig in np.arange(2,8,1):
 
 ax1.set_title('ppress at t={:g} days'.format(a.tvals[tindex]))
 leg1 = ax1.legend(title='neig',loc=6)
-leg1.set_draggable(True)
+leg1.draggable()
 
 leg2 = ax2.legend(title='neig')
-leg2.set_draggable(True)
+leg2.draggable()
 
 leg3 = ax3.legend(title='neig')
-leg3.set_draggable(True)
+leg3.draggable()
 
 plt.show()
\ No newline at end of file
diff --git a/examples/speccon/example_1d_vr_001b_schiffmanandstein1970.py b/examples/speccon/example_1d_vr_001b_schiffmanandstein1970.py
index f9d2e0e..339459f 100644
--- a/examples/speccon/example_1d_vr_001b_schiffmanandstein1970.py
+++ b/examples/speccon/example_1d_vr_001b_schiffmanandstein1970.py
@@ -78,18 +78,18 @@ author = "Dr. Rohan Walker"
 
 
 fig = plt.figure(figsize=(15,8))
-ax1 = fig.add_subplot(131)
+ax1 = fig.add_subplot('131')
 ax1.set_xlabel('ppress')
 ax1.set_ylabel('depth')
 ax1.invert_yaxis()
 ax1.grid()
 
-ax2 = fig.add_subplot(132)
+ax2 = fig.add_subplot('132')
 ax2.set_xlabel('time')
 ax2.set_ylabel('average pore pressure')
 
 
-ax3 = fig.add_subplot(133)
+ax3 = fig.add_subplot('133')
 ax3.set_xlabel('time')
 ax3.set_ylabel('settlement')
 ax3.invert_yaxis()
@@ -108,12 +108,12 @@ for h in h_values:
 leg_title='layer thickness'
 ax1.set_title('ppress at t={:g} days'.format(tprofile))
 leg1 = ax1.legend(title=leg_title,loc=6)
-leg1.set_draggable(True)
+leg1.draggable()
 
 leg2 = ax2.legend(title=leg_title)
-leg2.set_draggable(True)
+leg2.draggable()
 
 leg3 = ax3.legend(title=leg_title)
-leg3.set_draggable(True)
+leg3.draggable()
 
 plt.show()
\ No newline at end of file
diff --git a/examples/speccon/speccon1d_unsat_3layer_shanetal2014.py b/examples/speccon/speccon1d_unsat_3layer_shanetal2014.py
index 59adea3..ea1a310 100644
--- a/examples/speccon/speccon1d_unsat_3layer_shanetal2014.py
+++ b/examples/speccon/speccon1d_unsat_3layer_shanetal2014.py
@@ -374,7 +374,7 @@ def shanetal2014_3_layers_instant():
     leg = ax.legend(loc=3, labelspacing=0.0)
     plt.setp(leg.get_title(),fontsize=8)
     leg.get_frame().set_edgecolor('white')
-    leg.set_draggable(True)
+    leg.draggable()
     fig.subplots_adjust(top=0.97, bottom=0.15, left=0.2, right=0.94)
 
 
@@ -406,7 +406,7 @@ def shanetal2014_3_layers_instant():
     leg = ax.legend(loc=1, labelspacing=0.0)
     plt.setp(leg.get_title(),fontsize=8)
     leg.get_frame().set_edgecolor('white')
-    leg.set_draggable(True)
+    leg.draggable()
     fig2.subplots_adjust(top=0.97, bottom=0.15, left=0.2, right=0.94)
 
     return fig, fig2
diff --git a/examples/speccon/speccon1d_unsat_sinusoidal_bot_air_BC_shanetal2012.py b/examples/speccon/speccon1d_unsat_sinusoidal_bot_air_BC_shanetal2012.py
index 4b88ff1..8cebfb5 100644
--- a/examples/speccon/speccon1d_unsat_sinusoidal_bot_air_BC_shanetal2012.py
+++ b/examples/speccon/speccon1d_unsat_sinusoidal_bot_air_BC_shanetal2012.py
@@ -172,7 +172,7 @@ title = ("Shan et al. (2012) Unsaturated soil. instant surcharge"
 fig = plt.figure(figsize=(9,6))
 fig.suptitle(title)
 #z vs ua
-ax1 = fig.add_subplot(121)
+ax1 = fig.add_subplot("121")
 ax1.set_xlabel('Excess pore pressure in air, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -185,7 +185,7 @@ ax1.plot(a.pora, z,
          label='calculated')
 
 #z vs uw
-ax2 = fig.add_subplot(122)
+ax2 = fig.add_subplot("122")
 ax2.set_xlabel('Excess pore pressure in water, kPa')
 ax2.set_ylabel('Depth')
 ax2.invert_yaxis()
diff --git a/examples/speccon/speccon1d_unsat_sinusoidal_top_water_BC_shanetal2012.py b/examples/speccon/speccon1d_unsat_sinusoidal_top_water_BC_shanetal2012.py
index d9e0fa2..286be60 100644
--- a/examples/speccon/speccon1d_unsat_sinusoidal_top_water_BC_shanetal2012.py
+++ b/examples/speccon/speccon1d_unsat_sinusoidal_top_water_BC_shanetal2012.py
@@ -167,7 +167,7 @@ title = ("Shan et al. (2012) Unsaturated soil. instant surcharge + \nsinusoidal
 fig = plt.figure(figsize=(9,6))
 fig.suptitle(title)
 #z vs ua
-ax1 = fig.add_subplot(121)
+ax1 = fig.add_subplot("121")
 ax1.set_xlabel('Excess pore pressure in air, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -180,7 +180,7 @@ ax1.plot(a.pora, z,
          label='calculated')
 
 #z vs uw
-ax2 = fig.add_subplot(122)
+ax2 = fig.add_subplot("122")
 ax2.set_xlabel('Excess pore pressure in water, kPa')
 ax2.set_ylabel('Depth')
 ax2.invert_yaxis()
diff --git a/examples/speccon/speccon1d_unsat_surcharge_ka_divide_kw_100_shanetal2012.py b/examples/speccon/speccon1d_unsat_surcharge_ka_divide_kw_100_shanetal2012.py
index 49a7c68..a3cbada 100644
--- a/examples/speccon/speccon1d_unsat_surcharge_ka_divide_kw_100_shanetal2012.py
+++ b/examples/speccon/speccon1d_unsat_surcharge_ka_divide_kw_100_shanetal2012.py
@@ -156,7 +156,7 @@ title = ("Shan et al. (2012) Unsaturated soil, instant surcharge, ka/kw=100 Fig2
 fig = plt.figure(figsize=(13,6))
 fig.suptitle(title)
 #z vs ua
-ax1 = fig.add_subplot(131)
+ax1 = fig.add_subplot("131")
 ax1.set_ylabel('Excess pore pressure in air phase, kPa')
 ax1.set_xlabel('Time')
 ax1.set_xscale('log')
@@ -170,7 +170,7 @@ ax1.plot(tua, a.pora[0,:len(tua)],
 
 
 # settlement vs t
-ax3 = fig.add_subplot(133)
+ax3 = fig.add_subplot("133")
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.set_xscale('log')
@@ -183,10 +183,10 @@ ax3.plot(tset, a.set[0],
          label='calculated')
 
 leg = ax3.legend()
-leg.set_draggable(True)
+leg.draggable()
 
 #z vs uw
-ax4 = fig.add_subplot(132)
+ax4 = fig.add_subplot("132")
 ax4.set_ylabel('Excess pore pressure in water phase, kPa')
 ax4.set_xlabel('Time')
 ax4.set_xscale('log')
diff --git a/examples/speccon/speccon1d_vr_4layers_vert_schiffmanandstein1970_Fig2.py b/examples/speccon/speccon1d_vr_4layers_vert_schiffmanandstein1970_Fig2.py
index 7387b8d..9f2b63e 100644
--- a/examples/speccon/speccon1d_vr_4layers_vert_schiffmanandstein1970_Fig2.py
+++ b/examples/speccon/speccon1d_vr_4layers_vert_schiffmanandstein1970_Fig2.py
@@ -61,7 +61,7 @@ a.make_all()
 # Make a custom plot (alternately use "show_figures=True" in the input for
 # generic plots)
 fig = plt.figure(figsize=(6,4))
-ax = fig.add_subplot(111)
+ax = fig.add_subplot('111')
 ax.set_xlabel('Pore pressure, u/q')
 ax.set_ylabel('Depth, feet')
 ax.invert_yaxis()
@@ -72,7 +72,7 @@ lineObjects = plt.plot(a.por, a.ppress_z * a.H)
 
 leg_title='Time (days)'
 leg = ax.legend(lineObjects, a.tvals, title=leg_title, loc=6)
-leg.set_draggable(True)
+leg.draggable()
 plt.tight_layout()
 
 plt.show()
diff --git a/examples/speccon/speccon1d_vr_mimic_terzaghi_with_gradient_bottom_boundary_condition.py b/examples/speccon/speccon1d_vr_mimic_terzaghi_with_gradient_bottom_boundary_condition.py
index e4e59c8..acfba20 100644
--- a/examples/speccon/speccon1d_vr_mimic_terzaghi_with_gradient_bottom_boundary_condition.py
+++ b/examples/speccon/speccon1d_vr_mimic_terzaghi_with_gradient_bottom_boundary_condition.py
@@ -171,7 +171,7 @@ title = ("Mimic Terzaghi 1D by using time dependent bottom "
 fig = plt.figure(figsize=(12,5))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot(131)
+ax1 = fig.add_subplot("131")
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Normalised depth')
 ax1.invert_yaxis()
@@ -184,7 +184,7 @@ ax1.plot(a.por, z,
          label='calculated')
 
 # avp vs t
-ax2 = fig.add_subplot(132)
+ax2 = fig.add_subplot("132")
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -197,10 +197,10 @@ ax2.plot(t, a.avp[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax2.legend()
-leg.set_draggable(True)
+leg.draggable()
 
 # settlement vs t
-ax3 = fig.add_subplot(133)
+ax3 = fig.add_subplot("133")
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
diff --git a/examples/speccon/speccon1d_vr_mimic_terzaghi_with_pumping_at_mid_depth.py b/examples/speccon/speccon1d_vr_mimic_terzaghi_with_pumping_at_mid_depth.py
index 74da61b..12b7056 100644
--- a/examples/speccon/speccon1d_vr_mimic_terzaghi_with_pumping_at_mid_depth.py
+++ b/examples/speccon/speccon1d_vr_mimic_terzaghi_with_pumping_at_mid_depth.py
@@ -176,7 +176,7 @@ title = ("Mimic Terzaghi 1D by using time dependent pumping "
 fig = plt.figure(figsize=(12,5))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot(131)
+ax1 = fig.add_subplot("131")
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Normalised depth')
 ax1.invert_yaxis()
@@ -189,7 +189,7 @@ ax1.plot(a.por, z,
          label='calculated')
 
 # avp vs t
-ax2 = fig.add_subplot(132)
+ax2 = fig.add_subplot("132")
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -202,10 +202,10 @@ ax2.plot(t, a.avp[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax2.legend()
-leg.set_draggable(True)
+leg.draggable()
 
 # settlement vs t
-ax3 = fig.add_subplot(133)
+ax3 = fig.add_subplot("133")
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
diff --git a/examples/speccon/speccon1d_vr_radial_mimic_hansbo1981_with_vacuum.py b/examples/speccon/speccon1d_vr_radial_mimic_hansbo1981_with_vacuum.py
index 181dfff..76c73bc 100644
--- a/examples/speccon/speccon1d_vr_radial_mimic_hansbo1981_with_vacuum.py
+++ b/examples/speccon/speccon1d_vr_radial_mimic_hansbo1981_with_vacuum.py
@@ -79,7 +79,7 @@ title = ("Mimic Hansbo 1981 with vacuum.")
 fig = plt.figure(figsize=(12,5))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot(131)
+ax1 = fig.add_subplot("131")
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Normalised depth')
 ax1.invert_yaxis()
@@ -92,7 +92,7 @@ ax1.plot(a.por, a.ppress_z,
          label='calculated')
 
 # avp vs t
-ax2 = fig.add_subplot(132)
+ax2 = fig.add_subplot("132")
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -107,7 +107,7 @@ ax2.plot(t, a.avp[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot(133)
+ax3 = fig.add_subplot("133")
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -121,7 +121,7 @@ ax3.plot(t, a.set[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax3.legend()
-leg.set_draggable(True)
+leg.draggable()
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
diff --git a/examples/speccon/speccon1d_vr_vert_and_radial_drainage_tangandonitsuka2000.py b/examples/speccon/speccon1d_vr_vert_and_radial_drainage_tangandonitsuka2000.py
index 3762f67..050e06a 100644
--- a/examples/speccon/speccon1d_vr_vert_and_radial_drainage_tangandonitsuka2000.py
+++ b/examples/speccon/speccon1d_vr_vert_and_radial_drainage_tangandonitsuka2000.py
@@ -207,7 +207,7 @@ title = ("Tang and Onitsuka (2000) vertical and radial drainage")
 fig = plt.figure(figsize=(12,5))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot(131)
+ax1 = fig.add_subplot("131")
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -220,7 +220,7 @@ ax1.plot(a.por, z,
          label='calculated')
 
 # avp vs t
-ax2 = fig.add_subplot(132)
+ax2 = fig.add_subplot("132")
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -235,7 +235,7 @@ ax2.plot(t, a.avp[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot(133)
+ax3 = fig.add_subplot("133")
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -249,7 +249,7 @@ ax3.plot(t, a.set[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax3.legend()
-leg.set_draggable(True)
+leg.draggable()
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
diff --git a/examples/speccon/speccon1d_vr_vert_and_radial_equal_vs_free_strain_nogmaiandli2003.py b/examples/speccon/speccon1d_vr_vert_and_radial_equal_vs_free_strain_nogmaiandli2003.py
index decca67..34160fb 100644
--- a/examples/speccon/speccon1d_vr_vert_and_radial_equal_vs_free_strain_nogmaiandli2003.py
+++ b/examples/speccon/speccon1d_vr_vert_and_radial_equal_vs_free_strain_nogmaiandli2003.py
@@ -225,7 +225,7 @@ title = ("Nogami and li (2003) vertical and radial drainage"
 fig = plt.figure(figsize=(12,5))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot(131)
+ax1 = fig.add_subplot("131")
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -238,7 +238,7 @@ ax1.plot(a.por, z,
          label='calculated')
 
 # avp vs t
-ax2 = fig.add_subplot(132)
+ax2 = fig.add_subplot("132")
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -253,7 +253,7 @@ ax2.plot(t, a.avp[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot(133)
+ax3 = fig.add_subplot("133")
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -267,7 +267,7 @@ ax3.plot(t, a.set[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax3.legend()
-leg.set_draggable(True)
+leg.draggable()
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
diff --git a/examples/speccon/speccon1d_vr_vert_with_depth_dependent_mv_kv_zhuandyin2012.py b/examples/speccon/speccon1d_vr_vert_with_depth_dependent_mv_kv_zhuandyin2012.py
index e756b8c..82cfc0e 100644
--- a/examples/speccon/speccon1d_vr_vert_with_depth_dependent_mv_kv_zhuandyin2012.py
+++ b/examples/speccon/speccon1d_vr_vert_with_depth_dependent_mv_kv_zhuandyin2012.py
@@ -146,7 +146,7 @@ title = ("Zhu and Yin (2012) mv = 1.2*(1+0.5*z/H)**2, kv = 1.6*(1+0.5*z/H)**-2")
 fig = plt.figure(figsize=(12,5))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot(121)
+ax1 = fig.add_subplot("121")
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -161,7 +161,7 @@ ax1.plot(a.por, z,
 
 
 # settlement vs t
-ax3 = fig.add_subplot(122)
+ax3 = fig.add_subplot("122")
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -175,7 +175,7 @@ ax3.plot(t, a.set[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax3.legend()
-leg.set_draggable(True)
+leg.draggable()
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
diff --git a/examples/speccon/speccon1d_vrc_stone_column_luetal2010.py b/examples/speccon/speccon1d_vrc_stone_column_luetal2010.py
index c2c08a6..65072ac 100644
--- a/examples/speccon/speccon1d_vrc_stone_column_luetal2010.py
+++ b/examples/speccon/speccon1d_vrc_stone_column_luetal2010.py
@@ -319,7 +319,7 @@ title = ("Lu et al (2010) Stone column, load is uniform with depth")
 fig = plt.figure(figsize=(13,6))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot(141)
+ax1 = fig.add_subplot("141")
 ax1.set_xlabel('Excess pore pressure \nin soil, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -333,7 +333,7 @@ ax1.plot(a.pors, z,
 
 
 # avp vs t
-ax2 = fig.add_subplot(143)
+ax2 = fig.add_subplot("143")
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore press \n(soil and column), kPa')
 ax2.set_xscale('log')
@@ -348,7 +348,7 @@ ax2.plot(t, a.avp[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot(144)
+ax3 = fig.add_subplot("144")
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -363,10 +363,10 @@ ax3.plot(t, a.set[0],
          label='calculated')
 
 leg = ax3.legend()
-leg.set_draggable(True)
+leg.draggable()
 
 
-ax4 = fig.add_subplot(142)
+ax4 = fig.add_subplot("142")
 ax4.set_xlabel('Excess pore pressure \nin column, kPa')
 ax4.set_ylabel('Depth')
 ax4.invert_yaxis()
diff --git a/examples/speccon/speccon1d_vrc_stone_column_luetal2010_linear_depth_dependent_load.py b/examples/speccon/speccon1d_vrc_stone_column_luetal2010_linear_depth_dependent_load.py
index ce5c386..467d111 100644
--- a/examples/speccon/speccon1d_vrc_stone_column_luetal2010_linear_depth_dependent_load.py
+++ b/examples/speccon/speccon1d_vrc_stone_column_luetal2010_linear_depth_dependent_load.py
@@ -322,7 +322,7 @@ title = ("Lu et al (2010) Stone column, load is linear with depth")
 fig = plt.figure(figsize=(13,6))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot(141)
+ax1 = fig.add_subplot("141")
 ax1.set_xlabel('Excess pore pressure \nin soil, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -336,7 +336,7 @@ ax1.plot(a.pors, z,
 
 
 # avp vs t
-ax2 = fig.add_subplot(143)
+ax2 = fig.add_subplot("143")
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore press \n (soil and column), kPa')
 ax2.set_xscale('log')
@@ -351,7 +351,7 @@ ax2.plot(t, a.avp[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot(144)
+ax3 = fig.add_subplot("144")
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -366,10 +366,10 @@ ax3.plot(t, a.set[0],
          label='calculated')
 
 leg = ax3.legend()
-leg.set_draggable(True)
+leg.draggable()
 
 
-ax4 = fig.add_subplot(142)
+ax4 = fig.add_subplot("142")
 ax4.set_xlabel('Excess pore pressure \nin column, kPa')
 ax4.set_ylabel('Depth')
 ax4.invert_yaxis()
diff --git a/examples/speccon/speccon1d_vrw_mimic_partially_penetrating_drain_with_kw_of_0_in_bottom_layer.py b/examples/speccon/speccon1d_vrw_mimic_partially_penetrating_drain_with_kw_of_0_in_bottom_layer.py
index 8bb57b0..7ccb48a 100644
--- a/examples/speccon/speccon1d_vrw_mimic_partially_penetrating_drain_with_kw_of_0_in_bottom_layer.py
+++ b/examples/speccon/speccon1d_vrw_mimic_partially_penetrating_drain_with_kw_of_0_in_bottom_layer.py
@@ -462,7 +462,7 @@ title = ("Partially penetrating drain by setting kw=0 in bottom layer")
 fig = plt.figure(figsize=(13,6))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot(131)
+ax1 = fig.add_subplot("131")
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -475,7 +475,7 @@ ax1.plot(a.por, z,
          label='calculated')
 
 # avp vs t
-ax2 = fig.add_subplot(132)
+ax2 = fig.add_subplot("132")
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -490,7 +490,7 @@ ax2.plot(t, a.avp[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot(133)
+ax3 = fig.add_subplot("133")
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -504,7 +504,7 @@ ax3.plot(t, a.set[0],
          markeredgecolor='red',
          label='calculated')
 leg = ax3.legend()
-leg.set_draggable(True)
+leg.draggable()
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
diff --git a/examples/speccon/speccon1d_vrw_vert_and_radial_with_well_resis_drainage_tangandonitsuka2000.py b/examples/speccon/speccon1d_vrw_vert_and_radial_with_well_resis_drainage_tangandonitsuka2000.py
index 58adf08..dbf9828 100644
--- a/examples/speccon/speccon1d_vrw_vert_and_radial_with_well_resis_drainage_tangandonitsuka2000.py
+++ b/examples/speccon/speccon1d_vrw_vert_and_radial_with_well_resis_drainage_tangandonitsuka2000.py
@@ -255,7 +255,7 @@ title = ("Tang and Onitsuka (2000) vertical and radial drainage including well r
 fig = plt.figure(figsize=(13,6))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot(131)
+ax1 = fig.add_subplot("131")
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -271,7 +271,7 @@ ax1.plot(por_no_well, z,
          label='no well resis')
 
 # avp vs t
-ax2 = fig.add_subplot(132)
+ax2 = fig.add_subplot("132")
 ax2.set_xlabel('Time')
 ax2.set_ylabel('Average excess pore pressure, kPa')
 ax2.set_xscale('log')
@@ -289,7 +289,7 @@ ax2.plot(t, avp_no_well[0],
 
 
 # settlement vs t
-ax3 = fig.add_subplot(133)
+ax3 = fig.add_subplot("133")
 ax3.set_xlabel('Time')
 ax3.set_ylabel('Settlement')
 ax3.invert_yaxis()
@@ -306,7 +306,7 @@ ax3.plot(t, settle_no_well[0],
          ls="None", color='green', marker="+", ms=5,
          label='$k_w=\\infty$')
 leg = ax3.legend()
-leg.set_draggable(True)
+leg.draggable()
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
diff --git a/examples/speccon/speccon1d_vrw_well_resistance_linear_with_depth_dengetal2013.py b/examples/speccon/speccon1d_vrw_well_resistance_linear_with_depth_dengetal2013.py
index 9900945..b878199 100644
--- a/examples/speccon/speccon1d_vrw_well_resistance_linear_with_depth_dengetal2013.py
+++ b/examples/speccon/speccon1d_vrw_well_resistance_linear_with_depth_dengetal2013.py
@@ -113,7 +113,7 @@ title = ("Deng et al. (2013) Radial drainage with linear depth dependent well re
 fig = plt.figure(figsize=(8,6))
 fig.suptitle(title)
 #z vs u
-ax1 = fig.add_subplot(111)
+ax1 = fig.add_subplot("111")
 ax1.set_xlabel('Excess pore pressure, kPa')
 ax1.set_ylabel('Depth')
 ax1.invert_yaxis()
@@ -130,7 +130,7 @@ for i, line in enumerate(ax1.get_lines()[-2:]):
     line.set_label("calculated t={:d}".format(int(t[i])))
 
 leg = ax1.legend(loc=3)
-leg.set_draggable(True)
+leg.draggable()
 
 fig.subplots_adjust(top=0.90, bottom=0.15, left=0.1, right=0.94, wspace=0.4)
 #fig.tight_layout()
-- 
2.43.0


From 2958399dec62f2dc41649ce5811fbe4bb6393373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:40 +0000
Subject: [PATCH 122/125] fix: input text cannot assign to attributes of
 modules and classes

---
 geotecha/inputoutput/inputoutput.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 4fcb7d4..9febd7e 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -212,6 +212,9 @@ class SyntaxChecker(ast.NodeVisitor):
         if self.print_each_node:
             print('ATTRIBUTE:', ast.dump(node))
 
+        if type(node.ctx).__name__ != 'Load':
+            # e.g. np.cos = 3 would change numpy for everything else
+            raise SyntaxError("cannot assign to attribute {}!".format(node.attr))
         if node.attr not in self.allowed_functions and node.attr not in self.allowed_attributes:
             raise SyntaxError("{} is not an allowed attribute!".format(node.attr))
             sys.exit(0)
-- 
2.43.0


From 2ab54d7155209f26217106181e6807a6c740d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:11 +0000
Subject: [PATCH 123/125] fix: placing markers does not reseed the random
 module

---
 geotecha/plotting/one_d.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 5963fa8..ef3802e 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1771,13 +1771,12 @@ def apply_markevery_to_sequence_of_lines(lines, markevery=None ,
     """
     import random
 
-
-
+    if not seed is None:
+        # own generator, leaves the sequence of the random module alone
+        random = random.Random(seed)
 
     if isinstance(markevery, int):
         if random_start:
-            if not seed is None:
-                random.seed(seed)
             [apply_dict_to_object(line, d)
             for line, d in
                 zip(lines,[{'markevery': (random.randint(0, markevery),
@@ -1795,8 +1794,6 @@ def apply_markevery_to_sequence_of_lines(lines, markevery=None ,
             # all the markevery code it in to my own matplotlib.lines file.
 
             if random_start:
-                if not seed is None:
-                    random.seed(seed)
                 [apply_dict_to_object(line, d)
                 for line, d in
                     zip(lines,[{'markevery': (random.random()*markevery,
-- 
2.43.0


From 1deca26ad97f7d7bf55d72fe2769fa5a769a1464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:41 +0000
Subject: [PATCH 124/125] fix: EPUS calculations in several threads take turns
 on the fortran data

---
 geotecha/constitutive_models/epus.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 4840062..1d9e24f 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -22,6 +22,7 @@ Pham (2005).
 from __future__ import division, print_function
 import numpy as np
 import os
+import threading
 import matplotlib
 from matplotlib import pyplot as plt
 
@@ -34,6 +35,9 @@ except ImportError:
     print("Failed to import epus_ext; EPUS will use slow scalar version instead.")
     _SUCCESSFUL_FORTRAN_IMPORT = False
 
+# the fortran calculation works on variables of the fortran module
+_FORTRAN_LOCK = threading.Lock()
+
 from geotecha.constitutive_models import void_ratio_permeability
 from geotecha.constitutive_models import swcc
 
@@ -989,7 +993,8 @@ class EPUS(object):
             self._Calresults_scalar()
         else:
             if _SUCCESSFUL_FORTRAN_IMPORT:
-                self._Calresults_fortran()
+                with _FORTRAN_LOCK:
+                    self._Calresults_fortran()
             else:
                 self._Calresults_scalar()
 
-- 
2.43.0


From 2ffb50099344ae8e334e0875b05a3c25ce93679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:17 +0000
Subject: [PATCH 125/125] fix: find_n_roots does not search for ever when it
 starts on a root

---
 geotecha/mathematics/root_finding.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/geotecha/mathematics/root_finding.py b/geotecha/mathematics/root_finding.py
index 2277bc6..5f21b1f 100644
--- a/geotecha/mathematics/root_finding.py
+++ b/geotecha/mathematics/root_finding.py
@@ -137,6 +137,20 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
                                       [roots[v] for v in range(root_number)]))
         iter_count += 1
         x1 = x0 + dx
+        if x1 == x0:
+            #increment has been reduced to nothing, i.e. x0 is on a root
+            raise ValueError("Increment too small to move away from x={0:.4g} "
+                            "in trying to find root #{1} of {2} for the "
+                            "function '{3}'. Consider changing x0,dx, and p "
+                            "to better capture the root.  Currently "
+                            "x0={4:.4g}, dx={5:.4g}, p={6}."
+                            "".format(x0,
+                                      root_number,
+                                      n,
+                                      func.__name__,
+                                      x0_zero,
+                                      dx_zero,
+                                      p))
         y1 = func(x1, *args)
 
         if debug:
-- 
2.43.0

