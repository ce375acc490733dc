From 0ac280d2eff80fb5b7480054e58b23dd7aa59fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 01/60] fix: fractions in spatial counts were never read
 (column test on the wrong level)

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 138f648..d950186 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -62,7 +62,7 @@ class Spatialcount:
 
         crater=c['crater']
         diam=[float(e) for e in crater['diam']]
-        frac=[float(e) for e in crater['fraction']] if 'fraction' in c else [1. for e in diam]
+        frac=[float(e) for e in crater['fraction']] if 'fraction' in crater else [1. for e in diam]
         lon=[float(e) for e in crater['lon']]
         lat = [float(e) for e in crater['lat']]
         q=[i for i,e in sorted(enumerate(diam),key=lambda x:x[1])]     #get sorted indices
-- 
2.43.0


From 5134d0aa35dc9469744b4acd72d9d0b97e3079ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 02/60] fix: output directory given with -o raised a NameError

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 6feb4fc..c67c3b5 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -432,7 +432,7 @@ def set_default_filename(args,cps_dict,cp_dicts):
         case None:
             cps_dict['out'] = default_filename
         case _ if os.path.isdir(cps_dict['out']):
-            cps_dict['out'] = os.path.normpath(v + '/' + gm.filename(default_filename,'n'))
+            cps_dict['out'] = os.path.normpath(cps_dict['out'] + '/' + gm.filename(default_filename,'n'))
 
 def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_result=None):
     def savefig(tag=''):
-- 
2.43.0


From 42bd3d9d4aa57258679e009c6ab326af866d8596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 03/60] fix: -text_halo 0 was ignored

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index c67c3b5..1f5cc54 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -231,7 +231,7 @@ def construct_cps_dict(args,c,f):
         else:
             c['xrange'] = cst.DEFAULT_XRANGE['Hartmann']
             c['yrange'] = cst.DEFAULT_YRANGE['Hartmann']
-    if not c['text_halo']:
+    if c['text_halo'] is None:
         c['text_halo'] = 0 if c['presentation'] in ('uncertainty','sequence','chronology','rate') else 1
 
     return c
-- 
2.43.0


From 23371dec2b33c794f58b88f96c45945ab436ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 04/60] fix: explicit production function offset of zero was
 replaced by the default offset

---
 src/craterstats/Productionfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 4156b54..e8f220b 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -80,7 +80,7 @@ class Productionfn:
         :param a0: a0
         :return: y-values
         '''
-        if not a0:
+        if a0 is None:
             a0 = self.a[0] if hasattr(self,'a') else 0.
         if presentation=='cumulative':
             return self.C(d,a0)
-- 
2.43.0


From 91a80ec692f1b83585f176719da9d5a435003e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 05/60] fix: plotting a tabulated function without an offset
 raised AttributeError

---
 src/craterstats/Productionfn.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index e8f220b..85d554c 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -222,7 +222,6 @@ class Productionfn:
         :return: dict with series of values for plotting
         '''
         ns=400
-        if a0 is None: a0 = self.a[0]
         if range is None: range=self.range
         range=np.clip(range,self.range[0],self.range[1])
         log_d=np.linspace(np.log10(range[0]),np.log10(range[1]),ns)
-- 
2.43.0


From 166bcef91aba0bdd102c21d13e97ef83a680b5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 06/60] fix: an unreadable user functions file raised a
 NameError

---
 src/craterstats/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 31e45be..b979028 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -75,7 +75,7 @@ class Functionslist:
                 try:
                     s = s + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
                 except:
-                    print("Unable to read user functions file: "+functions_user+" - ignoring.")
+                    print("Unable to read user functions file: "+uf+" - ignoring.")
         self.functions = gm.read_textstructure(s,from_string=True)
 
     def user_function_config(self):
-- 
2.43.0


From 79d429a7a156df951f3f0a738206c5b35e27b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 07/60] fix: uncertainty plot wrote a plain plot instead of its
 three figures for every format after the first

---
 src/craterstats/cli.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 1f5cc54..9bc01fe 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -439,6 +439,7 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         cps.fig.savefig(cps.out + tag + '.' + f, dpi=500, transparent=cps.transparent,
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
+    computed = None
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
@@ -452,11 +453,12 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                         ra.plot_montecarlo_split(cps, measure, selection=selection)
                         savefig(f'-{measure}')
             elif cps.presentation == 'uncertainty' and age_area_result is None: # send to single fig output for gui
-                cps.calculate_time_axis_params()
-                age_area_result = cps.compute_age_area()
+                if computed is None:
+                    cps.calculate_time_axis_params()
+                    computed = cps.compute_age_area()
                 for plt in ('k', 'err', 'age'):
                     cps.draw()
-                    cps.age_area_plot(plt,age_area_result)
+                    cps.age_area_plot(plt,computed)
                     savefig('_' + plt)
             else:
                 if not drawn:
-- 
2.43.0


From 088d375e209754d6d50464f9a9708e2a0373a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 08/60] fix: summary table chose the range column of every row
 from the last overplot only

---
 src/craterstats/Craterplotset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index a9458d5..61af535 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -681,7 +681,7 @@ class Craterplotset:
         table = (('name', '24', '', None),
                  ('area', '8', '.5g', None),
                  ('binning', '>10', '', None),
-                 ('bin_range' if d['type'] in ('c-fit','d-fit') and d['resurf'] != 1 else 'range', '5', '.2g', ('d_min', 'd_max')),
+                 ('range', '5', '.2g', ('d_min', 'd_max')),
                  ('type', '>9', '', ('Method',)),
                  ('resurf', '6', '', None),
                  ('n', '7', '', None),
@@ -708,6 +708,8 @@ class Craterplotset:
         for d in s:
             ln=[]
             for k,w,f,_ in table:
+                if k=='range' and d['type'] in ('c-fit','d-fit') and d['resurf'] != 1:
+                    k='bin_range'
                 if k=='name' and d[k]=='':
                     d[k]= gm.filename(d['source'], 'n')
                 if k in ('range','bin_range','t','a0'):
-- 
2.43.0


From a5f81733b2ba22aefe6bafb0f1f6d567341489fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 09/60] fix: merging counts without a perimeter raised
 TypeError

---
 src/craterstats/miscellaneous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index b979028..3f84765 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -141,13 +141,13 @@ def merge_cratercounts(args,equal_weight=False):
         d += cc.diam
         frac += fraction
         a += area
-        p += cc.perimeter
+        p = None if p is None or cc.perimeter is None else p + cc.perimeter
 
     s = (['# Merged crater diameter file', '#----------------------------', '#']
            + ['# ' + gm.filename(f, "ne") for f in fs]
            + ['#']
            + [f"area = {a}"]
-           + [f"perimeter = {p}"]
+           + ([] if p is None else [f"perimeter = {p}"])
            + ['#',"crater = {diameter, fraction"]
            + [f"{a:<12g}  {b:g}" for a,b in zip(d,frac)]
            + ['}']
-- 
2.43.0


From ca29155b4e1de2687a0e43733a320b80af0e6321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 10/60] fix: sequence table ignored buffered Poisson ages and
 used a removed numpy function

---
 src/craterstats/Craterplotset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 61af535..2ae89e2 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -754,7 +754,7 @@ class Craterplotset:
 
         # calculate sequence table
         show_self_comparison = False
-        cpl = [e for e in self.craterplot if e.type in ['poisson','buffered-poisson'] and not e.hide]
+        cpl = [e for e in self.craterplot if e.type in ['poisson','b-poisson'] and not e.hide]
         n = len(cpl)
         if n<2: return
         s=[['' for i in range(n+1)] for j in range(n+1)]
@@ -787,10 +787,10 @@ class Craterplotset:
         # combined pdf
 
         pdf3 = copy.deepcopy(pdf2[0])
-        pdf3.pdf = np.product([e.pdf for e in pdf2],0)
+        pdf3.pdf = np.prod([e.pdf for e in pdf2],0)
 
         rel_probs =  [e.relative_probability(t0) for e,t0 in zip(pdf2,t)]
-        compound_prob = np.product(rel_probs)
+        compound_prob = np.prod(rel_probs)
 
         worse = np.where(pdf3.pdf < compound_prob, pdf3.dt * pdf3.pdf, 0)
         prob_worse = sum(worse)/sum(pdf3.dt * pdf3.pdf)
-- 
2.43.0


From 0106a2c6911663789663f793c333be5b612a3c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 11/60] fix: documented option -st had no effect

---
 src/craterstats/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 9bc01fe..cdeb178 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -469,6 +469,9 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         if f in {'csv'} and not cps.presentation == 'uncertainty':
             cps.create_summary_table(f_out=cps.out + '.' + f)
 
+    if args.sequence_table:
+        cps.create_sequence_table(cps.out + '_sequence.csv')
+
 def print_with_highlights(s):
     for line in s:
         if line != '' and line[0] == '*':
-- 
2.43.0


From 19345b446c09c74d882bc9abaf37e84a18278c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 12/60] fix: setting a user functions file outside a conda or
 frozen environment raised TypeError

---
 src/craterstats/miscellaneous.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 3f84765..8bd49d9 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -88,6 +88,8 @@ class Functionslist:
 
     def set_user_functions_config(self,path):
         if path:
+            if not self.config:
+                sys.exit('User functions file can only be set in a conda environment or installed version')
             s = ['#path to functions_user.txt', path]
             gm.write_textfile(self.config, s)
             print(': '.join(s)[1:])
-- 
2.43.0


From 669d61f7509db613b3d4a5893caf3ab30902ed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 13/60] fix: input file given with a relative path was looked
 up twice, and an included file replaced it as input

---
 src/craterstats/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index cdeb178..5b652e8 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -40,13 +40,16 @@ class LoadFromFile(argparse.Action):
             self.work_dir = gm.filename(values,'p')
             if os.path.isdir(self.work_dir):
                 os.chdir(self.work_dir)
+                if not os.path.isabs(values):
+                    values = os.path.basename(values)
         try:
             with open(values) as f:
                 # parse arguments in the file and store them in the target namespace
                 a=f.read()
                 a=('\n').join([e for e in a.split('\n') if e.strip() and not e.strip().startswith('#')] ) #remove '#' commented lines
                 parser.parse_args(shlex.split(a), namespace)
-                namespace.input_filename = f.name
+                if self.dest == 'input':
+                    namespace.input_filename = f.name
                 setattr(namespace, self.dest, True)
         except FileNotFoundError:
             raise argparse.ArgumentError(self, f"File not found: {values}")
-- 
2.43.0


From e44dc19ee29467205e14772831ed5dbaefe776b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 14/60] fix: unsupported conversions were reported as written

---
 src/craterstats/cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 5b652e8..20da575 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -319,6 +319,11 @@ def convert_format(args, cps, cs_content):
     fmt1 = fmt.lstrip(".")
     fmt0 = gm.filename(src,'e').lstrip(".")
     out = outfile(gm.filename(src, 'n'), cps.out, '.'+fmt1)
+    supported = {'stat': ['diam', 'scc', 'shp'], 'scc': ['shp'], 'shp': ['scc'],
+                 'png': ['shp', 'scc'], 'svg': ['shp', 'scc'], 'pdf': ['shp', 'scc']}
+    if fmt0 not in supported.get(fmt1, []):
+        print(f"{fmt0} to {fmt1} conversion not supported")
+        return
     match fmt1:
         case 'stat' if fmt0 in ['diam','scc','shp']:
             cc = cst.Cratercount(src)
-- 
2.43.0


From c32141161cf7e697af114f497ba7b670acbe60b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 15/60] fix: parallel randomness trials shared the same random
 sequence

---
 src/craterstats/Randomnessanalysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 0a35941..05bd7a9 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -476,6 +476,7 @@ def evaluate_randomness(self_pp, pts, ids, hpd):
     return measure, p2
 
 def run_trial(self_pp, b, n, trial_index):
+    np.random.seed([42, int(n), trial_index])
     pts, ids, hpd = sprinkle_discs_pp(self_pp, n, b)  # Generate points and ids
     m, _ = evaluate_randomness(self_pp, pts, ids, hpd)
     return m
-- 
2.43.0


From d76bce90de1e48b647dd2756fc1c8a08837805c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 16/60] fix: settings file was not written for an empty
 argument and lost quotes of arguments starting with a minus sign

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 20da575..3f04d27 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -545,7 +545,7 @@ def main(args0=None):
     cpl = [cst.Craterplot(d) for d in cp_dicts]
     cps.craterplot=cpl
 
-    cs_content = ''.join(['\n'+e if e[0]=='-' and not (e+' ')[1].isdigit() else ' '+shlex.quote(e) for e in args0])[1:]
+    cs_content = ''.join([('\n' if e[:1]=='-' and not e[1:2].isdigit() else ' ')+shlex.quote(e) for e in args0])[1:]
 
     if args.convert:
         convert_format(args, cps, cs_content)
-- 
2.43.0


From 91cbed2da3d8bc8d24c200bb29547eb5905751fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 17/60] fix: no resurfacing correction was treated as
 correction when given as None

---
 src/craterstats/Cratercount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 9c118cc..965571c 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -389,7 +389,7 @@ class Cratercount:
             if self.binning != binning:
                 self.apply_binning(binning)
 
-        adj = 0 if resurfacing==0 else self.resurf_adj(pf,range)
+        adj = self.resurf_adj(pf,range) if resurfacing else 0
 
         q=np.where(self.binned['n']>0)
 
-- 
2.43.0


From 7e35903aa299afcef2c5878f3f1dd71e8106627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 18/60] fix: non-integer epoch reference diameters were refused
 or truncated

---
 src/craterstats/Epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Epochs.py b/src/craterstats/Epochs.py
index 2d25d21..d086271 100644
--- a/src/craterstats/Epochs.py
+++ b/src/craterstats/Epochs.py
@@ -32,7 +32,7 @@ class Epochs:
         self.name = definition['name']
         self.epoch = definition['epoch']
         self.formatting = definition['formatting']
-        self.ref_diameter = [int(e) for e in definition['ref_diameter']] if 'ref_diameter' in definition else None
+        self.ref_diameter = [float(e) for e in definition['ref_diameter']] if 'ref_diameter' in definition else None
         self.density = [float(e) for e in definition['density']] if 'density' in definition else None
         self.time = [float(e) for e in definition['time']] if 'time' in definition else None
         self.reference = definition['reference']
-- 
2.43.0


From 40493213bdc3d6f25f4d2cc8f5997609ae9c6cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 19/60] fix: names and sources containing commas shifted the
 summary table columns

---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 2ae89e2..9292d4b 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -729,6 +729,7 @@ class Craterplotset:
                     v=txt_range
                 else:
                     v = f"{d[k]:{f}}"
+                    if ',' in v: v = '"'+v+'"'
                 ln+=[v]
             st += '\n'+','.join(ln)+'," "'
 
-- 
2.43.0


From 7b3d59215777fdbeb9520292dbaba03a244c317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 20/60] fix: perimeter given in a crater diameter file was not
 read

---
 src/craterstats/Cratercount.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 965571c..bc51c59 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -143,6 +143,8 @@ class Cratercount:
         diam,frac=zip(*sorted(zip(diam,frac),reverse=True))
 
         self.area=area
+        if 'perimeter' in s:
+            self.perimeter=float(s['perimeter'])
         self.diam=diam
         self.fraction=frac
         self.prebinned=0
-- 
2.43.0


From 565990826553ac57aa4d68d8ffa7cc7bcaaf2ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 21/60] fix: conversion of a sample file looked for the
 unresolved placeholder path

---
 src/craterstats/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 3f04d27..b1953dd 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -315,7 +315,8 @@ def convert_format(args, cps, cs_content):
         return outfile
 
     fmt, src = args.convert
-    scc = cst.Spatialcount(src.replace('%sample%/', cst.PATH + 'sample/'))
+    src = cs_source(src)
+    scc = cst.Spatialcount(src)
     fmt1 = fmt.lstrip(".")
     fmt0 = gm.filename(src,'e').lstrip(".")
     out = outfile(gm.filename(src, 'n'), cps.out, '.'+fmt1)
-- 
2.43.0


From e5e564ab1e2f00d86c5cea7c2bb4bda353855158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 22/60] fix: a given expectation for the age distribution
 raised ValueError

---
 src/craterstats/Craterpdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 92ca520..a619176 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -48,7 +48,7 @@ class Craterpdf:
             q = np.where((b['d_min'] >= d_range[0]) & (b['d_max'] <= d_range[1]))
             self.k = np.sum(b['n_event'][q])
 
-        if not lam:
+        if lam is None:
             if bcc: #buffered count
                 if cc.perimeter is None:
                     sys.exit('Error: buffered-poisson calculation requires polygon perimeter in source file')
-- 
2.43.0


From 97ea0a0b80d630c4f8df705a34570d2514a4403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 23/60] fix: second outer ring of a multipart area was written
 to the spatial count as a hole

---
 src/craterstats/Spatialcount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index d950186..ed7b370 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -213,7 +213,8 @@ class Spatialcount:
             pts += shape.points
             for j in range(len(shape.parts)):
                 n = parts[j + 1] - parts[j]
-                tag += ['ext' if j==0 else 'int'] * n
+                exterior = j==0 or shapefile.is_cw(shape.points[parts[j]:parts[j + 1]])
+                tag += ['ext' if exterior else 'int'] * n
                 sub_area += [i] * n
                 i += 1
         boundary_table = [f"{i:<5}\t{a:<5}\t{b:<4}\t{c[0]:23.15f}\t{c[1]:23.15f}"
-- 
2.43.0


From bb41e0a75f175fbf2342a507cc0aaf0421919098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 24/60] fix: legend of a fit to binned fractional counts raised
 ValueError

---
 src/craterstats/Craterplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index c9517cb..06ade01 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -249,7 +249,7 @@ class Craterplot:
                     if np.abs(self.n_event - self.n) < .001:
                         legend_label += [f'{self.n:0g}']
                     else:
-                        legend_label += [f'{self.n:.1f} (of {self.n_event:d})']
+                        legend_label += [f'{self.n:.1f} (of {self.n_event:.0f})']
                 legend_label[-1] += " craters" + (" (buffered)" if self.cratercount.buffered or self.type=='b-poisson' else "")
             if 'r' in cps.legend:
                 if not self.cratercount.prebinned and self.type in ['poisson','b-poisson']:
-- 
2.43.0


From 6aca76343446485510c8923121716c5a2981d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 25/60] fix: fit without a diameter range raised an error in
 the default legend

---
 src/craterstats/Craterplot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index 06ade01..7bbf50c 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -255,7 +255,10 @@ class Craterplot:
                 if not self.cratercount.prebinned and self.type in ['poisson','b-poisson']:
                     r=self.range
                 else:
-                    r=gm.range(self.cratercount.generate_bins(self.binning,self.range,expand=False))
+                    b=self.cratercount.binned
+                    r=[b['d_min'][0] if self.range[0]==0 else self.range[0], # unconstrained limits: extent of data
+                       b['d_max'][-1] if np.isinf(self.range[1]) else self.range[1]]
+                    r=gm.range(self.cratercount.generate_bins(self.binning,r,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
                 legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(10**self.a0[0],10**self.a0[2],10**self.a0[1], unit='km-2')]
-- 
2.43.0


From 42969266b26f848d63b5352b5e7b2a4617a99c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:44 +0000
Subject: [PATCH 26/60] fix: N(d_ref) in legend and table was N(1 km) whatever
 the reference diameter

---
 src/craterstats/Craterplot.py    | 4 ++--
 src/craterstats/Craterplotset.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index 7bbf50c..b63e195 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -94,7 +94,7 @@ class Craterplot:
             self.t = [cps.cf.t(a0=e) for e in self.a0]
             self.bin_range=p0['bin_range']
 
-        self.n_d = cps.pf.evaluate("cumulative", cps.ref_diameter, self.a0[0])
+        self.n_d = [cps.pf.evaluate("cumulative", cps.ref_diameter, e) for e in self.a0]
 
     # def oplot_n_sigma(self,cps):
     #
@@ -261,7 +261,7 @@ class Craterplot:
                     r=gm.range(self.cratercount.generate_bins(self.binning,r,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
-                legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(10**self.a0[0],10**self.a0[2],10**self.a0[1], unit='km-2')]
+                legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(self.n_d[0],self.n_d[2],self.n_d[1], unit='km-2')]
 
 
         if self.type=='data':
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 9292d4b..2f1a538 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -717,12 +717,12 @@ class Craterplotset:
                     if k in ('range','bin_range'):
                         txt_range=gm.diameter_range(d[k])
                 elif k=='n_d':
-                    v = ','.join([f"{10**e:{f}}" for e in d['a0']])
+                    v = ','.join([f"{e:{f}}" for e in d['n_d']])
                 elif k in ('Latex','MathML'):
                     t = d['t']
                     v0 = cst.str_age(t[0], t[2] - t[0], t[0] - t[1], mu=self.mu, MathML = k=='MathML')
-                    a0 = d['a0']
-                    v1 = gm.scientific_notation(10**a0[0],10**a0[2],10**a0[1], unit='km-2', MathML = k=='MathML')
+                    n_d = d['n_d']
+                    v1 = gm.scientific_notation(n_d[0],n_d[2],n_d[1], unit='km-2', MathML = k=='MathML')
                     v=v0+','+v1
                 elif k==' ':v=' '
                 elif k == 'Range':
-- 
2.43.0


From 96fcc68d60915f75ee2f3e8116ed2bb46497ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 27/60] fix: cumulative error bars of a statistics file with an
 event column used the weighted number

---
 src/craterstats/Cratercount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index bc51c59..d7ad49c 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -114,7 +114,7 @@ class Cratercount:
             'n': n,
             'n_event': n if nc == 7 else np.array([float(e[10]) for e in t]), # 'n_event' is in the 11th column (index 10) if nc == 11
             'ncum': ncum,
-            'ncum_event': ncum
+            'ncum_event': ncum if nc == 7 else np.flip(np.cumsum(np.flip([float(e[10]) for e in t])))
         }
         self.prebinned = True
         self.binning = 'pseudo-log'
-- 
2.43.0


From 6d92cb7d48e402c6d46fd0fcd7ad600d291125c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 28/60] fix: isochrons below the equilibrium function's
 smallest diameter are not compared with its largest-diameter value

---
 src/craterstats/Productionfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 85d554c..3a42d15 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -243,7 +243,7 @@ class Productionfn:
         iso=self.getplotdata(presentation,a0)
         if ef:
             e=ef.getplotdata(presentation)
-            j= gm.value_locate(e['d'], iso['d'])
+            j= np.maximum(gm.value_locate(e['d'], iso['d']), 0) # below first equilibrium diameter: use first value, not last
             q= gm.where(iso['y'] < e['y'][j] * .8)
             iso={'presentation':presentation,'d':iso['d'][q],'y':iso['y'][q]}
 
-- 
2.43.0


From b52bed0cf7a941b1ff6b26042ed5f2a648880d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 29/60] fix: chronology plot with overplots and other
 unscalable sets crashed in autoscale

---
 src/craterstats/Craterplotset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 2f1a538..5386efc 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -609,7 +609,11 @@ class Craterplotset:
                 ranges.append(cp.get_data_range(self))
             except Exception: # non-cml, binning=none. This is ugly - better to test and skip these (and hidden plots)
                 pass
-        x0, x1, y0, y1 = zip(*ranges) if ranges else  (*cst.DEFAULT_XRANGE[self.presentation], *cst.DEFAULT_YRANGE[self.presentation])
+        if not ranges: # no plotted data to scale to
+            self.xrange = np.array(cst.DEFAULT_XRANGE[self.presentation] if xrange is None else xrange, dtype=float)
+            self.yrange = np.array(cst.DEFAULT_YRANGE[self.presentation] if yrange is None else yrange, dtype=float)
+            return
+        x0, x1, y0, y1 = zip(*ranges)
 
         mx = (.3, .8) # minimum empty margin
         my = [e * (2 if self.presentation=='differential' else 1) for e in [.3,.3]] # minimum empty margin
-- 
2.43.0


From 20fcd38e061576ca44e0b81cd450d3ae72b31ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 30/60] fix: randomness analysis was repeated for every image
 format under a different output name each time

---
 src/craterstats/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index b1953dd..e0a116d 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -449,10 +449,11 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
     computed = None
+    if args.randomness_analysis and {'png', 'pdf', 'svg', 'tif'} & set(cps.format):
+        ra = randomness_analysis(args, cps,progress_queue=progress_queue) # once only: sets output name
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
-                ra = randomness_analysis(args, cps,progress_queue=progress_queue)
                 selection = cst.ra_decode_selection(args.select)
                 for measure in cps.measure:
                     if selection==[0]:
-- 
2.43.0


From c220d7c28824aa6447bc67654b7aa882edfaa384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 31/60] fix: file names with parentheses and similar characters
 were taken for directories

---
 src/craterstats/gm/file/filename.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/filename.py b/src/craterstats/gm/file/filename.py
index 6b0eaef..c62106d 100644
--- a/src/craterstats/gm/file/filename.py
+++ b/src/craterstats/gm/file/filename.py
@@ -24,7 +24,7 @@ def filename(f,code,insert1=None,insert2=None,max_ext_length=4):
     if type(f) is list:
         return [filename(e,code,insert1=insert1,insert2=insert2) for e in f]
 
-    m = re.search(r'(?P<path>.*?)(?P<name>[\.,= \w-]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
+    m = re.search(r'(?P<path>.*?)(?P<name>[^\\/:]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
     path=m['path']
     name=m['name']
     ext = m['ext']
-- 
2.43.0


From 3d738125f12483916754896ccf42c18804909ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 32/60] fix: conversions ignored the given output name or
 directory

---
 src/craterstats/cli.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index e0a116d..dbd19b7 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -304,22 +304,18 @@ def construct_plot_dicts(args,plot,cps_dict):
     return cpl
 
 def convert_format(args, cps, cs_content):
-    def outfile(name, out, ext):
-        if out != 'out':
-            if os.path.isdir(out):
-                outfile = out + name + ext
-            else:
-                outfile = gm.filename(out, 'pn') + ext
-        else:
-            outfile = name + ext
-        return outfile
+    def outfile(name, ext):
+        if args.input or args.out and not os.path.isdir(args.out):
+            return cps.out + ext
+        return (gm.filename(cps.out, 'p') if args.out else '') + name + ext
 
     fmt, src = args.convert
     src = cs_source(src)
     scc = cst.Spatialcount(src)
     fmt1 = fmt.lstrip(".")
     fmt0 = gm.filename(src,'e').lstrip(".")
-    out = outfile(gm.filename(src, 'n'), cps.out, '.'+fmt1)
+    name = re.sub(r'_?CRATER_?', '', scc.name) if fmt1 in ['png', 'svg', 'pdf'] else scc.name
+    out = outfile(name, '.'+fmt1)
     supported = {'stat': ['diam', 'scc', 'shp'], 'scc': ['shp'], 'shp': ['scc'],
                  'png': ['shp', 'scc'], 'svg': ['shp', 'scc'], 'pdf': ['shp', 'scc']}
     if fmt0 not in supported.get(fmt1, []):
@@ -328,12 +324,10 @@ def convert_format(args, cps, cs_content):
     match fmt1:
         case 'stat' if fmt0 in ['diam','scc','shp']:
             cc = cst.Cratercount(src)
-            out = gm.filename(out, 'p1e', cc.name)
             cc.WriteStatFile(out)
         case 'scc':
             if fmt0 == 'shp':
                 scc = cst.Spatialcount(src)
-                out = gm.filename(out, 'p1e', scc.name)
                 scc.writeSCCfile(out)
         case 'shp':
             if fmt0 == 'scc':
@@ -342,7 +336,6 @@ def convert_format(args, cps, cs_content):
                 out = gm.filename(out,'pn1e', '[_CRATER,_AREA]')
         case 'png'|'svg'|'pdf':
             if fmt0 in ['shp','scc']:
-                out = re.sub(r'_?CRATER_?', '', out)
                 if not args.input:
                     out = gm.filename(out, 'pn1e','_map')
                     gm.write_textfile(gm.filename(out, 'pn1', '.cs'), cs_content)
-- 
2.43.0


From c4d38e1d8fb2776d5bf9862cad4e77512b2af281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 33/60] fix: colour classes of the crater number map shifted
 when the map does not span 0 to 8 craters

---
 src/craterstats/Craterplotset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 5386efc..a9c875f 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -957,7 +957,8 @@ class Craterplotset:
 
         if plt == 'k':
             im = np.flip(np.transpose(np.clip(kk, 0, 8)), 1)
-            imo = self.ax.imshow(im, cmap_k, origin="lower", interpolation='none', alpha=None, aspect='auto', extent=[0, 1, 0, 1])
+            imo = self.ax.imshow(im, cmap_k, origin="lower", interpolation='none', alpha=None, aspect='auto',
+                                 vmin=0, vmax=8, extent=[0, 1, 0, 1])
             cbar = self.fig.colorbar(imo, self.ax_cbar, ticks=[0.5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5])
             cbar.ax.set_yticklabels(['0', '1', '2', '3', '4', '5', '6', '7+'])
             cbar.set_label('$k$' + diameter_text, rotation=90)
-- 
2.43.0


From 6ea685b7fbd029ebdd665e52e774e4ae137f2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 34/60] fix: spatial count with an island inside a hole could
 not be read

---
 src/craterstats/Spatialcount.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index ed7b370..04f2845 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -92,13 +92,16 @@ class Spatialcount:
                 xr = (min(xr1[0], xr[0]), max(xr1[1], xr[1]))
                 yr = (min(yr1[0], yr[0]), max(yr1[1], yr[1]))
 
+        parent={} # smallest external part enclosing each hole
+        for j, internal in z:
+            if internal:
+                enclosing = [i for i, internal1 in z if not internal1 and sph.within(d[j][1], d[i][1])]
+                parent[j] = min(enclosing, key=lambda i: sph.area(d[i][1]), default=None)
+
         p=[]
         for i, internal in z:
             if not internal:
-                holes=[]
-                for j, internal1 in z[i:]:
-                    if sph.within(d[j][1],d[i][1]):
-                        holes += [d[j][0]]
+                holes=[d[j][0] for j in parent if parent[j] == i]
                 p += [sph.create_polygon(shell=d[i][0], holes=holes)]
 
         p = sph.create_multipolygon(p) #merge if multiple
-- 
2.43.0


From 749d5db1277663911682828227592a413eac86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 35/60] fix: spatial count whose boundary parts are not
 numbered from 1 could not be read

---
 src/craterstats/Spatialcount.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 04f2845..2080e4e 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -83,14 +83,6 @@ class Spatialcount:
             pts = [pt for pt, _ in groupby(pts)] # remove consecutive duplicates
             p = sph.create_polygon(shell=pts)
             d[i] = (pts, p) #, xyz(pts)) # xyz needs to be moved out
-            xr1 = gm.range([x for x,y in pts])
-            yr1 = gm.range([y for x, y in pts])
-            if i == 1:
-                xr=xr1
-                yr=yr1
-            else:
-                xr = (min(xr1[0], xr[0]), max(xr1[1], xr[1]))
-                yr = (min(yr1[0], yr[0]), max(yr1[1], yr[1]))
 
         parent={} # smallest external part enclosing each hole
         for j, internal in z:
-- 
2.43.0


From 1fdf69419377c8d8b2a12f2f7646bb51041e3781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 36/60] fix: area and perimeter of a spatial count in exponent
 notation lost their power of ten

---
 src/craterstats/Cratercount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index d7ad49c..d3198b2 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -176,11 +176,11 @@ class Cratercount:
 
         q=[i for i,e in sorted(enumerate(diam),key=lambda x:x[1])]     #get sorted indices
 
-        self.area=float(re.findall(r'\s*[\d\.]*',s['Total_area'])[0])
+        self.area=float(re.findall(r'\s*[\d\.]*(?:[eE][+-]?\d+)?',s['Total_area'])[0])
         if 'Perimeter' in s.keys():
             self.perimeter = float(s['Perimeter'].split()[0])
         if 'Total_perimeter' in s.keys(): #for Thomas Heyer's OpenCraterTool
-            self.perimeter = float(re.findall(r'\s*[\d\.]*',s['Total_perimeter'])[0])
+            self.perimeter = float(re.findall(r'\s*[\d\.]*(?:[eE][+-]?\d+)?',s['Total_perimeter'])[0])
         self.diam=[diam[e] for e in q]
         self.fraction=[frac[e] for e in q]
         self.prebinned=0
-- 
2.43.0


From a9e0fd457744b0e33c084d0d54c597df3b28f85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 37/60] fix: spatial count of several areas could not be
 written as shapefile

---
 src/craterstats/Spatialcount.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 2080e4e..30069e5 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -317,13 +317,13 @@ class Spatialcount:
         decomposed=[]
         for p in p0 if isinstance(p0, list) else [p0]:
             z = sph.to_wkb(p)
-            y = shp.from_wkb(z)
-            x = shp.get_exterior_ring(y)
-            rings = [list(x.coords)]
-            for j in range(shp.get_num_interior_rings(y)):
-                x = shp.get_interior_ring(y,j)
-                rings.append(list(x.coords))  # Append holes
-            decomposed += [rings]
+            for y in shp.get_parts(shp.from_wkb(z)):
+                x = shp.get_exterior_ring(y)
+                rings = [list(x.coords)]
+                for j in range(shp.get_num_interior_rings(y)):
+                    x = shp.get_interior_ring(y,j)
+                    rings.append(list(x.coords))  # Append holes
+                decomposed += [rings]
         return decomposed
 
 
-- 
2.43.0


From d9d2daa54d4000602ff463cb56588e5248a50af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 38/60] fix: shapefiles were written with exterior rings
 anticlockwise and holes clockwise, so that holes read back as areas

---
 src/craterstats/Spatialcount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 30069e5..2fd4009 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -261,7 +261,7 @@ class Spatialcount:
         rims,wkt = self.find_rims()
         for d, x, y, r in zip(self.diam, self.lon, self.lat, rims):
             c.record(Diam_km=d, x_coord=x, y_coord=y, tag='standard')
-            c.poly([list(zip(*r))])
+            c.poly([list(zip(*r))[::-1]]) # shapefile convention: exterior rings clockwise, holes anticlockwise
         c.close()
         gm.write_textfile(gm.filename(fc,'pn1','.prj'),wkt)
         shutil.copy(cst.PATH + 'config/_CRATER.qml', gm.filename(fc,'pn1','.qml'))
@@ -318,6 +318,7 @@ class Spatialcount:
         for p in p0 if isinstance(p0, list) else [p0]:
             z = sph.to_wkb(p)
             for y in shp.get_parts(shp.from_wkb(z)):
+                y = shp.geometry.polygon.orient(y, -1.) # exterior clockwise, holes anticlockwise
                 x = shp.get_exterior_ring(y)
                 rings = [list(x.coords)]
                 for j in range(shp.get_num_interior_rings(y)):
-- 
2.43.0


From 4eacb49467ea98cd99450c4de8b9239ceab4360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 39/60] fix: randomness file without any scored bin could not
 be read back

---
 src/craterstats/Randomnessanalysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 05bd7a9..cd1eab1 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -423,7 +423,7 @@ class Randomnessanalysis(cst.Spatialcount):
 
         for measure in self.montecarlo:
             trials = (
-                ['trials  = {index, ' + ", ".join([b for b in self.montecarlo[measure]['trials']])]
+                ['trials  = {' + ", ".join(['index'] + [b for b in self.montecarlo[measure]['trials']])]
                 + ["\t".join([f"{t:<12}"] + [f"{v[t]:<12.7g}" for bin,v in self.montecarlo[measure]['trials'].items()])
                             for t in range(self.montecarlo[measure]['n_trials']) ]
                 + ['}'])
@@ -447,7 +447,7 @@ class Randomnessanalysis(cst.Spatialcount):
                         'n_trials':int(c[name]['n_trials']),
                         }
                     self.montecarlo[name]['trials'] = {}
-                    for b in list(c[name]['trials'].keys())[1:]:
+                    for b in [e for e in list(c[name]['trials'].keys())[1:] if e]:
                         self.montecarlo[name]['trials'][b] = [float(e) for e in c[name]['trials'][b]]
 
     def self_pp(self,trials, measure):
-- 
2.43.0


From eb7744985322b520bae128f77fb96231dc1a5786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 40/60] fix: randomness analysis without any bin of sufficient
 craters ended with an error when plotted

---
 src/craterstats/Cratercount.py        | 2 ++
 src/craterstats/Randomnessanalysis.py | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index d3198b2..e839a35 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -56,6 +56,8 @@ class Cratercount:
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
         if f:
             c = gm.read_textstructure(f)
+            if not c['n_sigma']['bin']: # no bins with sufficient craters
+                return None, None
             measures = sorted(set(c['n_sigma'].keys()) - {'bin'})
             trials = [c[m]['n_trials'] for m in measures]
             return c['n_sigma'],trials
diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index cd1eab1..cc2d7bc 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -359,6 +359,11 @@ class Randomnessanalysis(cst.Spatialcount):
             ax = cps.fig.add_axes([pos.x0, pos.y0 + pos.height *.4, pos.width, pos.height *.2])
             sz_ratio = .8
 
+        if not self.montecarlo[measure]['stats']:
+            self.print(f"{measure}: no bins with sufficient craters")
+            ax.set_visible(False)
+            return
+
         x = [np.log10(2**(float(r)+.25)) for r in self.montecarlo[measure]['stats']]
         y0 = [(e.m0 - e.mn)/e.sd for e in self.montecarlo[measure]['stats'].values()]
         y1 = [cst.n_sigma_scaling(e) for e in y0] # apply axis scaling
-- 
2.43.0


From fef5c78253593f63cab62cc9d24203b83fedd4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 41/60] fix: default axis ranges missed the data when the first
 overplot had nothing to plot

---
 src/craterstats/Craterplotset.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index a9c875f..c2826d5 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -606,7 +606,9 @@ class Craterplotset:
         ranges = []
         for cp in self.craterplot:
             try:
-                ranges.append(cp.get_data_range(self))
+                r = cp.get_data_range(self)
+                if not np.isnan(r).any(): # nothing plotted: empty crater files, no craters in range, or non-cml, binning=none
+                    ranges.append(r)
             except Exception: # non-cml, binning=none. This is ugly - better to test and skip these (and hidden plots)
                 pass
         if not ranges: # no plotted data to scale to
@@ -635,10 +637,7 @@ class Craterplotset:
 
         #optimal padding should consider margins mx, my as well
         dx,dy= gm.mag(xr), gm.mag(yr)
-        if np.isnan(dx) or np.isnan(dy): # dx - empty crater files; dy - non-cml, binning=none
-            xr = cst.DEFAULT_XRANGE[self.presentation]
-            yr = cst.DEFAULT_YRANGE[self.presentation]
-        elif self.presentation == 'differential':
+        if self.presentation == 'differential':
             if int(dy) % 2 == 1: # odd
                 yr += [0, 1] if big_bottom else [-1, 0]
                 dy = gm.mag(yr)
-- 
2.43.0


From 74447c9e6735aca51cdcef0044067fa725b5b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 42/60] fix: overplot without data beside a randomness file
 ended with an error (n_sigma position undefined)

---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index c2826d5..e9c8c1a 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -614,6 +614,7 @@ class Craterplotset:
         if not ranges: # no plotted data to scale to
             self.xrange = np.array(cst.DEFAULT_XRANGE[self.presentation] if xrange is None else xrange, dtype=float)
             self.yrange = np.array(cst.DEFAULT_YRANGE[self.presentation] if yrange is None else yrange, dtype=float)
+            self.max_y = self.yrange[1] - gm.mag(self.yrange)*3/16 # position for n_sigma
             return
         x0, x1, y0, y1 = zip(*ranges)
 
-- 
2.43.0


From bed5a3cda88bb36af29a014237120734bdb2735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 43/60] fix: counts in an area enclosing a pole could not be
 read, written or plotted (unclosed ring in longitude/latitude)

---
 src/craterstats/Randomnessanalysis.py | 4 ++--
 src/craterstats/Spatialcount.py       | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index cc2d7bc..d51f7e0 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -84,7 +84,7 @@ class Randomnessanalysis(cst.Spatialcount):
         sz_ratio = ax.get_position().width/cps.ax.get_position().width
 
         # start from sph_polygons output (p2) from sdaa calc.
-        shp_polygons0 = [shp.from_wkb(sph.to_wkb(p)) for p in p2]
+        shp_polygons0 = [shp.from_wkb(sph.to_wkb(p), on_invalid='fix') for p in p2]
         # flatten any multipolygons (disjoint areas or holes should also be outlined)
         shp_polygons = [polygon for shape in shp_polygons0 for polygon in (shape.geoms if isinstance(shape, shp.MultiPolygon) else [shape])]
 
@@ -261,7 +261,7 @@ class Randomnessanalysis(cst.Spatialcount):
 
             # do area
             z = sph.to_wkb(self.polygon)
-            multipolygon = shp.from_wkb(z)
+            multipolygon = shp.from_wkb(z, on_invalid='fix')
             p = []
 
             if not isinstance(multipolygon, shp.MultiPolygon):
diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 2fd4009..9ec705f 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -185,7 +185,7 @@ class Spatialcount:
     def find_enclosing_polygon(self): # could be moved out to ra
         n_pole = sph.create_point(longitude=0, latitude=90)
         s_pole = sph.create_point(longitude=0, latitude=-90)
-        minx, miny, maxx, maxy = shp.from_wkt(sph.to_wkt(self.polygon)).bounds
+        minx, miny, maxx, maxy = shp.from_wkt(sph.to_wkt(self.polygon), on_invalid='fix').bounds
         xr , yr = ( (minx,maxx), (miny,maxy) )
         if sph.covers(self.polygon, n_pole):
             yr = (miny, 90)
@@ -317,7 +317,7 @@ class Spatialcount:
         decomposed=[]
         for p in p0 if isinstance(p0, list) else [p0]:
             z = sph.to_wkb(p)
-            for y in shp.get_parts(shp.from_wkb(z)):
+            for y in shp.get_parts(shp.from_wkb(z, on_invalid='fix')):
                 y = shp.geometry.polygon.orient(y, -1.) # exterior clockwise, holes anticlockwise
                 x = shp.get_exterior_ring(y)
                 rings = [list(x.coords)]
@@ -345,7 +345,7 @@ class Spatialcount:
 
         # do area
         z = sph.to_wkb(self.polygon)
-        multipolygon = shp.from_wkb(z)
+        multipolygon = shp.from_wkb(z, on_invalid='fix')
 
         if not isinstance(multipolygon, shp.MultiPolygon):
             multipolygon = shp.MultiPolygon([multipolygon])
-- 
2.43.0


From fd4625bedc2c9d942d1c07222873dfbddc29cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 44/60] fix: nearest-neighbour search ended with an error or
 missed a neighbour where the HEALPix cone search omits an edge cell

---
 src/craterstats/Randomnessanalysis.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index d51f7e0..f369725 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -551,6 +551,14 @@ def random_points_pp(self ,n):
     x = np.random.uniform(self.xr[0], self.xr[1], n)
     return zip(x ,y)
 
+def cone_search(hp, lon, lat, radius):
+    """
+    HEALPix cells within radius (radians) of lon, lat (degrees)
+    astropy_healpix may omit cells at the edge of the cone, so include the surrounding ring
+    """
+    cells = set(hp.cone_search_lonlat(lon*u.deg, lat*u.deg, radius*u.rad))
+    return cells | set(hp.neighbours(tuple(cells)).flatten())
+
 def sprinkle_discs_pp(self ,n ,diam):
     """
     generate z random points in enclosing area
@@ -572,7 +580,7 @@ def sprinkle_discs_pp(self ,n ,diam):
             if sph.within(pt, self.polygon):
 
                 # erase existing craters closer than diam/2
-                hpx_neighbours = self.hp.cone_search_lonlat(lon*u.deg, lat*u.deg, angular_radius*u.rad)
+                hpx_neighbours = cone_search(self.hp, lon, lat, angular_radius)
                 for id in hpx_neighbours:
                     if id in hpd:
                         len0 = len(hpd[id])
@@ -627,7 +635,7 @@ def kth_nearest_neighbour_pp(self, pts,ids,hpd, k=1):
             debug = 4
 
             # redefine neighbourhood based on known kth closest: if pt near edge, could be over hpx cell boundary
-            hpx_neighbours = self.hp.cone_search_lonlat(sph.get_x(pt) * u.deg, sph.get_y(pt) * u.deg, d0/self.planetary_radius * u.rad)
+            hpx_neighbours = cone_search(self.hp, sph.get_x(pt), sph.get_y(pt), d0/self.planetary_radius)
             d1, pt1 = get_kth(pt, hpx_neighbours)
             debug = 5
             neighbours += [pt1]
-- 
2.43.0


From 47709470b81c5781920e8b14d461695080273878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 45/60] fix: randomness analysis of a near-global area with few
 trials ended with an error (HEALPix nside below one)

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index f369725..65644e4 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -60,7 +60,7 @@ class Randomnessanalysis(cst.Spatialcount):
         desired_nbins = n/10
         desired_bin_area = self.area / desired_nbins
         desired_n_hpx = area_globe / desired_bin_area
-        nside = 2**round(np.log2(math.sqrt(desired_n_hpx/12)))
+        nside = 2**max(round(np.log2(math.sqrt(desired_n_hpx/12))), 0)
         self.hp = hpx.HEALPix(nside=nside, order='nested')
 
     def oplot_neighbours(self,cps,craters,neighbours,ax=None):
-- 
2.43.0


From 31448ead6d02066f2114d99d1d5e5f5238c5e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 46/60] fix: random configurations never reached the poleward
 bulge of long area edges (great circles)

---
 src/craterstats/Spatialcount.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 9ec705f..6d0b221 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -185,13 +185,24 @@ class Spatialcount:
     def find_enclosing_polygon(self): # could be moved out to ra
         n_pole = sph.create_point(longitude=0, latitude=90)
         s_pole = sph.create_point(longitude=0, latitude=-90)
-        minx, miny, maxx, maxy = shp.from_wkt(sph.to_wkt(self.polygon), on_invalid='fix').bounds
+        outline = shp.from_wkt(sph.to_wkt(self.polygon), on_invalid='fix')
+        minx, miny, maxx, maxy = outline.bounds
+        # edges are great circles: find the extreme latitude along each
+        lon, lat = np.radians(shp.get_coordinates(outline)).T
+        v = np.array([np.cos(lat)*np.cos(lon), np.cos(lat)*np.sin(lon), np.sin(lat)])
+        v0, v1 = v[:, :-1], v[:, 1:]
+        k = 1 - np.sum(v0*v1, axis=0)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            t = np.clip(np.nan_to_num((v1[2] - v0[2] + k*v0[2]) / (k*(v0[2] + v1[2]))), 0, 1)
+        x, y, z = v0 + t*(v1 - v0)
+        edge_lat = np.degrees(np.arctan2(z, np.hypot(x, y)))
+        miny, maxy = min(miny, edge_lat.min()), max(maxy, edge_lat.max())
         xr , yr = ( (minx,maxx), (miny,maxy) )
         if sph.covers(self.polygon, n_pole):
-            yr = (miny, 90)
+            yr = (yr[0], 90)
             xr = (-180,180)
         if sph.covers(self.polygon, s_pole):
-            yr = (-90, maxy)
+            yr = (-90, yr[1])
             xr = (-180, 180)
         self.xr=xr
         self.yr=yr
-- 
2.43.0


From 180c20e44621b56e28f9dcbd76a17853dd841202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 47/60] fix: define the randomness analysis on every path of
 write_output_files

---
 src/craterstats/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index dbd19b7..7b00eb1 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -442,6 +442,7 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
     computed = None
+    ra = None
     if args.randomness_analysis and {'png', 'pdf', 'svg', 'tif'} & set(cps.format):
         ra = randomness_analysis(args, cps,progress_queue=progress_queue) # once only: sets output name
     for f in cps.format:
-- 
2.43.0


From 3f09235aecede14399e805c8048a3156c2b5502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:45 +0000
Subject: [PATCH 48/60] fix: scl accepts tname together with out_range

---
 src/craterstats/gm/maths/scl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/gm/maths/scl.py b/src/craterstats/gm/maths/scl.py
index 32ca6e5..b7bd1db 100644
--- a/src/craterstats/gm/maths/scl.py
+++ b/src/craterstats/gm/maths/scl.py
@@ -18,6 +18,8 @@ def scl(x,in_range=None,out_range=None,tname=None,double=False):
 
     if tname==None:
         dtype=type(x[0]) if out_range==None else type(out_range[0])
+    else:
+        dtype={'byte':np.ubyte,'int16':np.int16,'uint16':np.uint16}[tname]
     
     mn=min(x)
     mx=max(x)
-- 
2.43.0


From b8735f11b7dfb4692d9ad6b837fbb41289c14f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 49/60] fix: refuse presentations which have no plot (map,
 sdaa, m2cnd) instead of ending with a KeyError while drawing

---
 src/craterstats/cli.py       | 4 ++--
 src/craterstats/constants.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 7b00eb1..09a5992 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -84,7 +84,7 @@ def get_parser():
     parser.add_argument("-ep", "--epochs", help="epoch system index")
 
     parser.add_argument("-title", help="plot title", nargs='+', action=SpacedString)
-    parser.add_argument("-pr", "--presentation", help="data presentation: " + (', ').join(cst.PRESENTATIONS))#, action=SpacedString)
+    parser.add_argument("-pr", "--presentation", help="data presentation: " + (', ').join(cst.PLOT_PRESENTATIONS))#, action=SpacedString)
     parser.add_argument("-xrange", help="x-axis range, log(min) log(max)", nargs=2)
     parser.add_argument("-yrange", help="y-axis range, log(min) log(max)", nargs=2)
     parser.add_argument("-isochrons", help="comma-separated isochron list in Ga, e.g. 1,3,3.7a,4a (optional combined suffix to modify label: h - hide; a - above; s - small)")
@@ -165,7 +165,7 @@ def decode_abbreviation(s,v,one_based=False,allow_ambiguous=False,allow_invalid=
 def construct_cps_dict(args,c,f):
     if 'presentation' in vars(args):
         if args.presentation is not None:
-            c['presentation'] = cst.PRESENTATIONS[decode_abbreviation(cst.PRESENTATIONS, args.presentation,one_based=True)]
+            c['presentation'] = cst.PLOT_PRESENTATIONS[decode_abbreviation(cst.PLOT_PRESENTATIONS, args.presentation,one_based=True)]
     if c['presentation'] in ['chronology', 'rate', 'sequence', 'uncertainty']: #possible to overwrite with user-choice
         c['xrange'] = cst.DEFAULT_XRANGE[c['presentation']]
         c['yrange'] = cst.DEFAULT_YRANGE[c['presentation']]
diff --git a/src/craterstats/constants.py b/src/craterstats/constants.py
index 65f5378..8eb150f 100644
--- a/src/craterstats/constants.py
+++ b/src/craterstats/constants.py
@@ -9,6 +9,7 @@ import craterstats.gm as gm
 import craterstats as cst
 
 PRESENTATIONS = ('cumulative', 'differential', 'R-plot', 'Hartmann', 'chronology', 'rate', 'sequence', 'uncertainty', 'map', 'sdaa', 'm2cnd')
+PLOT_PRESENTATIONS = PRESENTATIONS[:-3] # selectable for a plot: 'map', 'sdaa', 'm2cnd' belong to randomness analysis
 OPLOT_TYPES = ('data', 'differential-fit', 'cumulative-fit', 'poisson', 'buffered-poisson')
 OPLOT_TYPES_SHORT = ('data', 'd-fit', 'c-fit', 'poisson', 'b-poisson')
 CRATERPLOT_KEYS = ('source', 'name', 'range', 'snap', 'type', 'error_bars', 'hide', 'colour', 'psym', 'binning', 'age_left', 'show_age',
-- 
2.43.0


From 8a585a6a049295c8a817902d20220649283df711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:21 +0000
Subject: [PATCH 50/60] fix: a command reading settings with -i left the
 process in another directory, so that later commands of the same process
 failed or read other files

---
 src/craterstats/cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 09a5992..6582605 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -2,6 +2,7 @@
 #  Licensed under BSD 3-Clause License. See LICENSE.txt for details.
 
 import argparse
+import contextlib
 import copy
 import os
 import platform
@@ -490,6 +491,10 @@ def list_symbols_and_colours():
     print(', '.join([f'{e[2]}' for e in cst.PALETTE]))
 
 def main(args0=None):
+    with contextlib.chdir(os.curdir): # reading settings from a file may change directory: return afterwards
+        run_command(args0)
+
+def run_command(args0=None):
     args = get_parser().parse_args(args0)
     if not args0: args0=sys.argv[1:]
 
-- 
2.43.0


From 53c85699a0c4148de75a98f67e11d547c6b2f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:49 +0000
Subject: [PATCH 51/60] fix: label the axis of chronology and rate plots with
 fractional reference diameters

---
 src/craterstats/Craterplotset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index e9c8c1a..a2a9438 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -200,8 +200,8 @@ class Craterplotset:
             'differential': 'Differential crater density, km$^{-3}$',
             'R-plot': 'Relative crater density (R)',
             'Hartmann':     'Craters per $√$2-bin'+(' (equivalent)' if nonroot2 else '')+', km$^{-2}$',
-            'chronology':   'Cumulative crater density N(>'+format(self.ref_diameter,'.0f')+' km), km$^{-2}$',
-            'rate':         'Crater formation rate N(>'+format(self.ref_diameter,'.0f')+' km), km$^{-2}$ Ga$^{-1}$',
+            'chronology':   'Cumulative crater density N(>'+format(self.ref_diameter,'g')+' km), km$^{-2}$',
+            'rate':         'Crater formation rate N(>'+format(self.ref_diameter,'g')+' km), km$^{-2}$ Ga$^{-1}$',
             }[self.presentation]
         
         title = ('\n'.join(self.title.split('|')) if self.title else None)
-- 
2.43.0


From 47e998bf44b02a0bd6716b9418495cf7ba4caee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 52/60] fix: axis ticks of root-2 and Hartmann plots with less
 than two labelled diameters in range

---
 src/craterstats/miscellaneous.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 8bd49d9..c2cb734 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -219,10 +219,11 @@ def Hartmann_bins(d_range):
     labels = [str(e) for e in
               (1, 2, 4, 8, 16, 31, 63, 125, 250, 500, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)]
     labels[10] = '  ' + labels[10] + "km"
-    xtickv, xtickname = map(list, zip(*[(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]))
-    if xtickv[0] < 0: xtickname[0] += 'm'
-    xminor = (xtickv[1] - xtickv[0]) / 2
-    xminorv = [e+xminor for e in [xtickv[0]-2*xminor]+xtickv if d_range[0] <= e+xminor <= d_range[1]]
+    ticks = [(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]
+    xtickv, xtickname = [val for val, _ in ticks], [txt for _, txt in ticks]
+    if xtickv and xtickv[0] < 0: xtickname[0] += 'm'
+    xminor = np.log10(2.) / 2
+    xminorv = [e+xminor for e in [e-2*xminor for e in xtickv[:1]]+xtickv if d_range[0] <= e+xminor <= d_range[1]]
     return xtickv,xtickname,xminor,xminorv
 
 
-- 
2.43.0


From 73a507c966473e646cdf8cb0826483880a2d1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 53/60] fix: tick labels of narrow time axes

---
 src/craterstats/Craterplotset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index a2a9438..b50d920 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -349,7 +349,7 @@ class Craterplotset:
             xtickv0,minor_div = gm.ticks([self.t_min,self.t_max],6, max_minor=12)
             xtickv = [e for e in xtickv0 if self.t_min <= e <= self.t_max]
 
-        xticklabels = [f"{e:.2g}" for e in xtickv]
+        xticklabels = [f"{e:.3g}" for e in xtickv]
         xticklabels[-1] += ' Ga'
 
         xfrac_linear = lin_units / (lin_units + log_units)
-- 
2.43.0


From 6a231dee317de8254679bdfae2e6f741fb9ad6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:41 +0000
Subject: [PATCH 54/60] fix: user functions file given as a relative path was
 looked up in the directory of every later command

---
 src/craterstats/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index c2cb734..a0714bd 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -90,7 +90,7 @@ class Functionslist:
         if path:
             if not self.config:
                 sys.exit('User functions file can only be set in a conda environment or installed version')
-            s = ['#path to functions_user.txt', path]
+            s = ['#path to functions_user.txt', os.path.abspath(path)] # remains valid from any directory
             gm.write_textfile(self.config, s)
             print(': '.join(s)[1:])
 
-- 
2.43.0


From 7166d601f3ae3e5f7481add6a37636436a1583ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:59 +0000
Subject: [PATCH 55/60] fix: unbalanced quotes left the reference of a
 chronology function unread

---
 src/craterstats/config/functions.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/config/functions.txt b/src/craterstats/config/functions.txt
index 3ceb344..1e65125 100644
--- a/src/craterstats/config/functions.txt
+++ b/src/craterstats/config/functions.txt
@@ -178,7 +178,7 @@ production={
 chronology={
     name='Mars, Hartmann & Neukum (2001)'
     coefficients=[3.22E-14,6.93E00,0,4.875E-04]    
-    reference='graphically: 2001 Hartmann & Neukum - Cratering Chronology and the Evolution of Mars; in equation form: 2001 Neukum Ivanov Hartmann - Cratering Records in the Inner Solar System in Relation to the Lunar Reference System"
+    reference='graphically: 2001 Hartmann & Neukum - Cratering Chronology and the Evolution of Mars; in equation form: 2001 Neukum Ivanov Hartmann - Cratering Records in the Inner Solar System in Relation to the Lunar Reference System'
 }
 
 chronology={
-- 
2.43.0


From f9a1563ae7d67c9a0037cc728df1ee438e5ec134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 56/60] fix: definitions with a tab before '=' were read as
 part of the preceding value

---
 src/craterstats/gm/file/read_textstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index e57b5ee..cd13864 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -73,7 +73,7 @@ def evaluate(s):
                 r"(\{\s+(?P<struct_value>(\{[a-zA-Z].*?\}|[^{}]*?)*?)^\s*\}.*?|"
                 r"\"\s*$(?P<text_value>[^{]*)^\s*\".*?|"
                 r"(?P<value>.*?))"
-                r"^\s*(?P<keyword2>[\w\.]*\^?) *="
+                r"^\s*(?P<keyword2>[\w\.]*\^?)[ \t]*="
                 ,s+"\nend=")
       
     if not m: return None #no definitions to process
-- 
2.43.0


From 874918f194d90a6265de0b0b3d3b83d0e5404128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:33 +0000
Subject: [PATCH 57/60] fix: an unpaired quote character cut off the rest of
 its line (names such as O'Brien, text blocks)

---
 src/craterstats/config/functions.txt     | 2 +-
 src/craterstats/gm/file/read_textfile.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/config/functions.txt b/src/craterstats/config/functions.txt
index 1e65125..d0b9b38 100644
--- a/src/craterstats/config/functions.txt
+++ b/src/craterstats/config/functions.txt
@@ -402,7 +402,7 @@ chronology={
 chronology_system={
   body='Vesta'
   name="Vesta, Marchi & O'Brien (2014)"
-  cf="Vesta, O'Brien et al. (2014)""
+  cf="Vesta, O'Brien et al. (2014)"
   pf='Vesta, Marchi et al (2013) [inferred, NS]'
 }
 
diff --git a/src/craterstats/gm/file/read_textfile.py b/src/craterstats/gm/file/read_textfile.py
index b2bcf10..aeec09b 100644
--- a/src/craterstats/gm/file/read_textfile.py
+++ b/src/craterstats/gm/file/read_textfile.py
@@ -32,7 +32,7 @@ def read_textfile(filename,n_lines=-1,ignore_blank=False,ignore_hash=False,strip
         s = [e for e in s if not e.lstrip().startswith('#')]
 
     if strip is not None:
-        c = re.compile(r'(("[^"]*?")|(\'[^\']*?\')|[^;\'"]*)*') # avoid splitting within quoted string
+        c = re.compile(r'("[^"]*"|\'[^\']*\'|[^;])*') # avoid splitting within quoted string
         s = [c.match(e)[0] for e in s]
 
     if as_string:
-- 
2.43.0


From 3969adf7b26a734f9a0e02c04430c0adb49c4f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:28 +0000
Subject: [PATCH 58/60] fix: values of a repeated vector keyword were joined
 into one list

---
 src/craterstats/gm/file/read_textstructure.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index cd13864..c14f04a 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -40,7 +40,7 @@ def simple_value(s):
 
 
 def merge(s1, sr):
-    '''merge single tag structure into cumulative structure'''
+    '''merge single tag structure into cumulative structure (of lists of the values of each tag)'''
 
     # if first is duplicate of tag in remainder (implicit array) -> add to array
     # else make union of first+remainder
@@ -48,10 +48,7 @@ def merge(s1, sr):
     if type(sr) != dict: return s1
     s1_tag=list(s1)[0]
     if s1_tag in list(sr):
-        if type(sr[s1_tag]) != list:
-            sr.update({s1_tag:[s1[s1_tag]]+[sr[s1_tag]]})    
-        else:
-            sr[s1_tag].insert(0,s1[s1_tag]) 
+        sr[s1_tag]=s1[s1_tag]+sr[s1_tag]
     else:
        sr.update(s1) 
        
@@ -59,6 +56,13 @@ def merge(s1, sr):
 
 
 def evaluate(s):
+    '''evaluate definitions: the values of a repeated tag form an implicit array'''
+
+    d=definitions(s)
+    return {k:v if len(v)>1 else v[0] for k,v in d.items()} if d else None
+
+
+def definitions(s):
     '''evaluate first definition; join with recursively evaluated remainder'''
 
     # find keyword followed by either struct_value, multiline text_value, or simple value; then following keyword
@@ -92,11 +96,11 @@ def evaluate(s):
     else: r=simple_value(m['value']) #simple value
     
     #new entry
-    dict1={keyword:r}     
+    dict1={keyword:[r]}
     
     #evaluate remainder  
     remainder = s[m.start('keyword2'):] if m['keyword2'] != None else ''    
-    dict_r=evaluate(remainder)
+    dict_r=definitions(remainder)
     
     #join together  
     dict_out=merge(dict1, dict_r)
-- 
2.43.0


From eb0e6cdcc4653c1d30718a9886791760c05bfccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:06 +0000
Subject: [PATCH 59/60] fix: order of the measures in the randomness results
 file differed from run to run

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 6582605..def8fc7 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -411,7 +411,7 @@ def randomness_analysis(args,cps,progress_queue=None):
         diff = cps.measures - {'m2cnd','sdaa'}
         if diff:
             sys.exit(f"Invalid measure: {diff}")
-    for measure in cps.measure:
+    for measure in sorted(cps.measure): # fixed order: also the order within the file
         ra.run_montecarlo(trials, measure)
         # do each loop so as to retain data if interrupted
         ra.calculate_stats()
-- 
2.43.0


From 4e538dd881f3ceb37a1a4e80ca0f5034e8faf41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:06 +0000
Subject: [PATCH 60/60] fix: order of the numbers of trials in the randomness
 legend differed from run to run

---
 src/craterstats/Craterplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index b63e195..1f9c031 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -151,7 +151,7 @@ class Craterplot:
             for i,m in enumerate(cps.measure):
                 cps.ax_ra.text(xr[0] - mg*.03, y[i], m, color=cps.palette[0], size=.5 * cps.scaled_pt_size,  va='center', ha='right')
                 cps.ax_ra.plot([xr[0] - mg*.027,xr[0] - mg*.005], [y[i]]*2, color=cps.palette[0], lw=.5 * cps.sz_ratio, linestyle=cst.LINESTYLES[m])
-            cps.ax_ra.text(xr[0] - mg * .005, y[-1], ', '.join(set(self.cratercount.n_trials))+" trials", color=cps.palette[0], size=.5 * cps.scaled_pt_size, va='center', ha='right')
+            cps.ax_ra.text(xr[0] - mg * .005, y[-1], ', '.join(dict.fromkeys(self.cratercount.n_trials))+" trials", color=cps.palette[0], size=.5 * cps.scaled_pt_size, va='center', ha='right')
 
             xtickv, xtickname, _, xminorv = cst.Hartmann_bins([xr[0],xr[1]+.001])
             cps.ax_ra.spines['top'].set_position(('data', cst.n_sigma_scaling(3)))
-- 
2.43.0

