From 66688616cc65f6d3f879fa8feea960dca5b93464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 01/65] fix: keep smallest crater when its diameter coincides
 with a bin boundary

---
 src/craterstats/Cratercount.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 9c118cc..60d22ea 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -243,6 +243,7 @@ class Cratercount:
         r10=np.log10(gm.range(d)) if len(d)>0 else np.array([0.,0.])
         eps=.001 # small vs smallest possible bin factor
         if expand:
+            r10[0] -= 1e-12 # rounding in log/power must not exclude smallest value if on bin boundary
             r10[1] += eps
         else:
             r10[0] += eps
-- 
2.43.0


From c61d5458ccbb63d2094c7da5cfa9175c72c7e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 02/65] fix: treat a0=0 as a value in Productionfn.evaluate

---
 src/craterstats/Productionfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 4156b54..e8f220b 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -80,7 +80,7 @@ class Productionfn:
         :param a0: a0
         :return: y-values
         '''
-        if not a0:
+        if a0 is None:
             a0 = self.a[0] if hasattr(self,'a') else 0.
         if presentation=='cumulative':
             return self.C(d,a0)
-- 
2.43.0


From fd25306ed4520b61064ee060f5cf4e5b4e2e95d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 03/65] fix: relative convergence test for resurfacing
 correction

---
 src/craterstats/Cratercount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 60d22ea..baf30ff 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -365,7 +365,7 @@ class Cratercount:
                 a0=pf.fit(p)
                 ncum_adj=pf.evaluate("cumulative",p['d'][n-1],a0[0])-p0['y'][n-1]
                 count+=1
-                if abs(ncum_adj0-ncum_adj) < .0001 or count > 20:
+                if abs(ncum_adj0-ncum_adj) < .0001*p0['y'][n-1] or count > 200:
                     break
         return ncum_adj
 
-- 
2.43.0


From e8dd623b7318d892d6615952ec8519bd528cc68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 04/65] fix: Poisson age for counts beyond the sampled range

---
 src/craterstats/Craterpdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 92ca520..4c0f927 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -64,8 +64,9 @@ class Craterpdf:
 
         pdf0 = gm.poisson(self.k, lam) * cf.phi(self.ts) # include dC/dt factor
         pdf0 = pdf0.astype(float)
-        if np.sum(pdf0)<1e-30: #force line peak if under-resolved
-            pdf0[np.searchsorted(lam, self.k)] = 1.
+        if np.sum(pdf0*self.dt)<1e-30: #force line peak if under-resolved (or at maximum age if beyond it)
+            pdf0[:] = 0.
+            pdf0[min(np.searchsorted(lam, self.k), np.flatnonzero(self.dt)[-1])] = 1.
         self.lam = lam
         self.pdf = pdf0/np.sum(pdf0*self.dt)
         self.cdf = np.cumsum(self.pdf*self.dt)
-- 
2.43.0


From 764cd8bbb797e31eccfc7acc6bde4f03d2a169f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 05/65] fix: sample Poisson posterior up to 5 Ga for every
 chronology

---
 src/craterstats/Craterpdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 4c0f927..7af9c49 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -32,8 +32,8 @@ class Craterpdf:
         :param n_samples: number of samples for likelihood curve
         """
 
-        x=np.linspace(-10, 5, n_samples) #additive change to a0 (equidistant in fitting space)
         a0=cf.a0(1.)
+        x=np.linspace(-10, max(5, cf.a0(5.)-a0), n_samples) #additive change to a0 (equidistant in fitting space; reaching 5 Ga)
         self.ts = cf.t(a0=a0+x)
         self.dt = self.ts - np.roll(self.ts, 1)
         self.dt[0] = self.dt[1]
-- 
2.43.0


From 259bab3323407409eee1664dfab7c5fdf80b073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 06/65] fix: integrate buffered-Poisson expectation over log
 diameter

---
 src/craterstats/Craterpdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 7af9c49..9e222cc 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -53,10 +53,10 @@ class Craterpdf:
                 if cc.perimeter is None:
                     sys.exit('Error: buffered-poisson calculation requires polygon perimeter in source file')
                 ns=500 #samples of PF for integration
-                d=np.linspace(d_range[0], d_range[1], ns)
+                d=np.geomspace(d_range[0], d_range[1], ns)
                 F=pf.F(d,a0)
                 y=(cc.area+d*cc.perimeter/2.+np.pi*d**2/4.)*F
-                I1=simpson(y,d)
+                I1=simpson(y*d,np.log(d))
                 lam = 10 ** (np.log10(I1) + x)   # lambda for each of self.ts
             else: #standard count
                 Ncum10=np.log10(pf.evaluate("cumulative",d_range,a0))
-- 
2.43.0


From 1ef4446a4279d9cd828c1e3456f5487532e2409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 07/65] fix: write the sequence probability table requested
 with -st

---
 src/craterstats/Craterpdf.py     | 2 +-
 src/craterstats/Craterplotset.py | 6 +++---
 src/craterstats/cli.py           | 3 +++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 9e222cc..d7ea05e 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -48,7 +48,7 @@ class Craterpdf:
             q = np.where((b['d_min'] >= d_range[0]) & (b['d_max'] <= d_range[1]))
             self.k = np.sum(b['n_event'][q])
 
-        if not lam:
+        if lam is None:
             if bcc: #buffered count
                 if cc.perimeter is None:
                     sys.exit('Error: buffered-poisson calculation requires polygon perimeter in source file')
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index a9458d5..f2abcdc 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -752,7 +752,7 @@ class Craterplotset:
 
         # calculate sequence table
         show_self_comparison = False
-        cpl = [e for e in self.craterplot if e.type in ['poisson','buffered-poisson'] and not e.hide]
+        cpl = [e for e in self.craterplot if e.type in ['poisson','b-poisson'] and not e.hide]
         n = len(cpl)
         if n<2: return
         s=[['' for i in range(n+1)] for j in range(n+1)]
@@ -785,10 +785,10 @@ class Craterplotset:
         # combined pdf
 
         pdf3 = copy.deepcopy(pdf2[0])
-        pdf3.pdf = np.product([e.pdf for e in pdf2],0)
+        pdf3.pdf = np.prod([e.pdf for e in pdf2],0)
 
         rel_probs =  [e.relative_probability(t0) for e,t0 in zip(pdf2,t)]
-        compound_prob = np.product(rel_probs)
+        compound_prob = np.prod(rel_probs)
 
         worse = np.where(pdf3.pdf < compound_prob, pdf3.dt * pdf3.pdf, 0)
         prob_worse = sum(worse)/sum(pdf3.dt * pdf3.pdf)
diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 6feb4fc..24e98da 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -467,6 +467,9 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         if f in {'csv'} and not cps.presentation == 'uncertainty':
             cps.create_summary_table(f_out=cps.out + '.' + f)
 
+    if args.sequence_table:
+        cps.create_sequence_table(cps.out + '_sequence.csv')
+
 def print_with_highlights(s):
     for line in s:
         if line != '' and line[0] == '*':
-- 
2.43.0


From 132a788001798ddc722a0dd000b541f054f02e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 08/65] fix: choose the summary table range for each row by its
 own type

---
 src/craterstats/Craterplotset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index f2abcdc..93210ab 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -681,7 +681,7 @@ class Craterplotset:
         table = (('name', '24', '', None),
                  ('area', '8', '.5g', None),
                  ('binning', '>10', '', None),
-                 ('bin_range' if d['type'] in ('c-fit','d-fit') and d['resurf'] != 1 else 'range', '5', '.2g', ('d_min', 'd_max')),
+                 ('range', '5', '.2g', ('d_min', 'd_max')),
                  ('type', '>9', '', ('Method',)),
                  ('resurf', '6', '', None),
                  ('n', '7', '', None),
@@ -710,10 +710,12 @@ class Craterplotset:
             for k,w,f,_ in table:
                 if k=='name' and d[k]=='':
                     d[k]= gm.filename(d['source'], 'n')
-                if k in ('range','bin_range','t','a0'):
+                if k=='range':
+                    r = d['bin_range' if d['type'] in ('c-fit','d-fit') and d['resurf'] != 1 else 'range']
+                    v = ','.join([f"{e:{f}}" for e in r])
+                    txt_range=gm.diameter_range(r)
+                elif k in ('t','a0'):
                     v = ','.join([f"{e:{f}}" for e in d[k]])
-                    if k in ('range','bin_range'):
-                        txt_range=gm.diameter_range(d[k])
                 elif k=='n_d':
                     v = ','.join([f"{10**e:{f}}" for e in d['a0']])
                 elif k in ('Latex','MathML'):
-- 
2.43.0


From 26b4081d864d568376208a70e0f94f4c2fe24de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 09/65] fix: strip tabs as well as spaces around array elements

---
 src/craterstats/gm/file/read_textstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index e57b5ee..ae73a46 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -16,11 +16,11 @@ def simple_value(s):
     
     if s.startswith('['):
         w=s.strip('[] \n').split(',')
-        r=[strip_quotes(e.strip('\n ')) for e in w]
+        r=[strip_quotes(e.strip()) for e in w]
         
     elif s.startswith('('):   
         w=s.strip('() \n').split(',')
-        r=[strip_quotes(e.strip('\n ')) for e in w]
+        r=[strip_quotes(e.strip()) for e in w]
     
     elif s.startswith('{'):  #declare ascii table: should be field names after (otherwise, was structure)
         w=s.splitlines()
-- 
2.43.0


From c4eb852ccd09a41fa4892c3bc0aa2d0ec927e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 10/65] fix: read .scc areas and perimeters in scientific
 notation

---
 src/craterstats/Cratercount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index baf30ff..4c6bc3b 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -174,11 +174,11 @@ class Cratercount:
 
         q=[i for i,e in sorted(enumerate(diam),key=lambda x:x[1])]     #get sorted indices
 
-        self.area=float(re.findall(r'\s*[\d\.]*',s['Total_area'])[0])
+        self.area=float(re.match(r'\s*[\d\.]*([eE][+-]?\d+)?',s['Total_area'])[0])
         if 'Perimeter' in s.keys():
             self.perimeter = float(s['Perimeter'].split()[0])
         if 'Total_perimeter' in s.keys(): #for Thomas Heyer's OpenCraterTool
-            self.perimeter = float(re.findall(r'\s*[\d\.]*',s['Total_perimeter'])[0])
+            self.perimeter = float(re.match(r'\s*[\d\.]*([eE][+-]?\d+)?',s['Total_perimeter'])[0])
         self.diam=[diam[e] for e in q]
         self.fraction=[frac[e] for e in q]
         self.prebinned=0
-- 
2.43.0


From be8779f2d2f3d03d57aae966ca20face420c1378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 11/65] fix: read .stat file with a single bin

---
 src/craterstats/Cratercount.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 4c6bc3b..1a7fda9 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -68,7 +68,10 @@ class Cratercount:
 
     def MakeBinGeometricMean(self):
         d_min=self.binned['d_min']
-        d_max=np.append(d_min[1:],d_min[-1]*( (d_min[-1]/d_min[-2])))
+        if len(d_min)>1:
+            d_max=np.append(d_min[1:],d_min[-1]*( (d_min[-1]/d_min[-2])))
+        else:
+            d_max=self.generate_bins('pseudo-log',d_min*1.001)[-1:]
 
         self.binned.update({'d_mean':np.sqrt(d_min*d_max),
                             'bin_width':d_max-d_min,
-- 
2.43.0


From 3be757abfbd8e4247c54d05fcf21e3d73913db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 12/65] fix: merge counts with unknown perimeter and read
 merged perimeter

---
 src/craterstats/Cratercount.py   | 2 ++
 src/craterstats/miscellaneous.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 1a7fda9..31e7cbc 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -145,6 +145,8 @@ class Cratercount:
 
         diam,frac=zip(*sorted(zip(diam,frac),reverse=True))
 
+        if 'perimeter' in s:
+            self.perimeter=float(s['perimeter'].split()[0])
         self.area=area
         self.diam=diam
         self.fraction=frac
diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 31e45be..3e0bfc4 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -141,13 +141,13 @@ def merge_cratercounts(args,equal_weight=False):
         d += cc.diam
         frac += fraction
         a += area
-        p += cc.perimeter
+        p = None if p is None or cc.perimeter is None else p + cc.perimeter # only if known for all
 
     s = (['# Merged crater diameter file', '#----------------------------', '#']
            + ['# ' + gm.filename(f, "ne") for f in fs]
            + ['#']
            + [f"area = {a}"]
-           + [f"perimeter = {p}"]
+           + ([f"perimeter = {p}"] if p is not None else [])
            + ['#',"crater = {diameter, fraction"]
            + [f"{a:<12g}  {b:g}" for a,b in zip(d,frac)]
            + ['}']
-- 
2.43.0


From c4bdc470dd7ca01b47a8ed129cff0cf1f70f0ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 13/65] fix: use crater fractions when reading .scc as spatial
 count

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 138f648..d950186 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -62,7 +62,7 @@ class Spatialcount:
 
         crater=c['crater']
         diam=[float(e) for e in crater['diam']]
-        frac=[float(e) for e in crater['fraction']] if 'fraction' in c else [1. for e in diam]
+        frac=[float(e) for e in crater['fraction']] if 'fraction' in crater else [1. for e in diam]
         lon=[float(e) for e in crater['lon']]
         lat = [float(e) for e in crater['lat']]
         q=[i for i,e in sorted(enumerate(diam),key=lambda x:x[1])]     #get sorted indices
-- 
2.43.0


From 6c68c6fc08138b347998fbb25db64f47cf869e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 14/65] fix: keep holes and parts of the counting region in
 conversions

---
 src/craterstats/Spatialcount.py | 41 ++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index d950186..dada41d 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -93,13 +93,14 @@ class Spatialcount:
                 yr = (min(yr1[0], yr[0]), max(yr1[1], yr[1]))
 
         p=[]
-        for i, internal in z:
-            if not internal:
-                holes=[]
-                for j, internal1 in z[i:]:
-                    if sph.within(d[j][1],d[i][1]):
-                        holes += [d[j][0]]
-                p += [sph.create_polygon(shell=d[i][0], holes=holes)]
+        ext = [i for i, internal in z if not internal]
+        holes = {i: [] for i in ext}
+        for j, internal in z:
+            if internal: # hole belongs to smallest enclosing exterior
+                enclosing = [i for i in ext if sph.within(d[j][1],d[i][1])]
+                if enclosing:
+                    holes[min(enclosing, key=lambda i: sph.area(d[i][1]))] += [d[j][0]]
+        p = [sph.create_polygon(shell=d[i][0], holes=holes[i]) for i in ext]
 
         p = sph.create_multipolygon(p) #merge if multiple
 
@@ -208,13 +209,11 @@ class Spatialcount:
     def writeSCCfile(self, filename=None):
         sub_area, tag, pts = [],[],[]
         i = 1
-        for shape in self.sa: # might be better to use technique from write_SHP, i.e. dismantle self.polygon
-            parts = list(shape.parts) + [len(shape.points)]
-            pts += shape.points
-            for j in range(len(shape.parts)):
-                n = parts[j + 1] - parts[j]
-                tag += ['ext' if j==0 else 'int'] * n
-                sub_area += [i] * n
+        for rings in self.polygon_to_pts():
+            for j, ring in enumerate(rings):
+                pts += ring
+                tag += ['ext' if j==0 else 'int'] * len(ring)
+                sub_area += [i] * len(ring)
                 i += 1
         boundary_table = [f"{i:<5}\t{a:<5}\t{b:<4}\t{c[0]:23.15f}\t{c[1]:23.15f}"
                           for i, (a, b, c) in enumerate(zip(sub_area, tag, pts), start=1)]
@@ -321,13 +320,13 @@ class Spatialcount:
         decomposed=[]
         for p in p0 if isinstance(p0, list) else [p0]:
             z = sph.to_wkb(p)
-            y = shp.from_wkb(z)
-            x = shp.get_exterior_ring(y)
-            rings = [list(x.coords)]
-            for j in range(shp.get_num_interior_rings(y)):
-                x = shp.get_interior_ring(y,j)
-                rings.append(list(x.coords))  # Append holes
-            decomposed += [rings]
+            for y in shp.get_parts(shp.from_wkb(z)):
+                x = shp.get_exterior_ring(y)
+                rings = [list(x.coords)]
+                for j in range(shp.get_num_interior_rings(y)):
+                    x = shp.get_interior_ring(y,j)
+                    rings.append(list(x.coords))  # Append holes
+                decomposed += [rings]
         return decomposed
 
 
-- 
2.43.0


From 1c4a1b06d1bc886efee670c50dff4bb7a96d960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 15/65] fix: close crater rims exactly

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index dada41d..4f2f2c4 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -288,7 +288,7 @@ class Spatialcount:
         """
         lon,lat,diam = (craters.lon,craters.lat,craters.diam) if craters else (self.lon,self.lat,self.diam)
 
-        theta = [2 * math.pi * i / ns for i in range(ns + 1)]
+        theta = [2 * math.pi * (i % ns) / ns for i in range(ns + 1)] # last point exactly equal to first
         cx, cy = np.array([(math.cos(e), math.sin(e)) for e in theta]).T
         rs = f'{self.planetary_radius * 1e3:0.0f}'
         wkt = f'GEOGCS["Spherical_GCS_{rs}", DATUM["Sphere_{rs}", SPHEROID["Sphere_{rs}", {rs}, 0]], PRIMEM["Greenwich", 0], UNIT["Degree", 0.0174532925199433]]'
-- 
2.43.0


From e43a55378d8739d16865d2877b3a9ad7ec2c1abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 16/65] fix: accept a relative path to a command file in
 another directory

---
 src/craterstats/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 24e98da..6a088ee 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -37,6 +37,7 @@ class SpacedString(argparse.Action):
 class LoadFromFile(argparse.Action):
     def __call__ (self, parser, namespace, values, option_string = None):
         if option_string in ('-i','--input'):
+            values = os.path.abspath(values) # remains valid after changing directory
             self.work_dir = gm.filename(values,'p')
             if os.path.isdir(self.work_dir):
                 os.chdir(self.work_dir)
-- 
2.43.0


From 1504ee0e9ffa0942ff7fee9c2cec6c22daf7d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 17/65] fix: quote every argument in the saved command file

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 6a088ee..54219b8 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -536,7 +536,7 @@ def main(args0=None):
     cpl = [cst.Craterplot(d) for d in cp_dicts]
     cps.craterplot=cpl
 
-    cs_content = ''.join(['\n'+e if e[0]=='-' and not (e+' ')[1].isdigit() else ' '+shlex.quote(e) for e in args0])[1:]
+    cs_content = ''.join([('\n' if e[:1]=='-' and not (e+' ')[1].isdigit() else ' ')+shlex.quote(e) for e in args0])[1:]
 
     if args.convert:
         convert_format(args, cps, cs_content)
-- 
2.43.0


From 349bef24c09daa2f9d6af598fb72e4f53a3aaf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 18/65] fix: take abbreviations literally

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 54219b8..2a844d0 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -147,7 +147,7 @@ def decode_abbreviation(s,v,one_based=False,allow_ambiguous=False,allow_invalid=
 
     #perhaps add back index selection requiring # prefix?
 
-    regex = '(?i)' + '.*'.join(v)
+    regex = '(?i)' + '.*'.join(re.escape(ch) for ch in v)
     res = [(i,e) for i,e in enumerate(s) if re.search(regex, e) is not None]
     res.sort(key=lambda x: len(x[1]))
     if len(res) == 0:
-- 
2.43.0


From b6f17053bc78afaf7b33e740978e93f69705a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 19/65] fix: accept an output directory

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 2a844d0..e9be008 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -433,7 +433,7 @@ def set_default_filename(args,cps_dict,cp_dicts):
         case None:
             cps_dict['out'] = default_filename
         case _ if os.path.isdir(cps_dict['out']):
-            cps_dict['out'] = os.path.normpath(v + '/' + gm.filename(default_filename,'n'))
+            cps_dict['out'] = os.path.join(cps_dict['out'], os.path.basename(default_filename))
 
 def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_result=None):
     def savefig(tag=''):
-- 
2.43.0


From e04545cff56af60a4db2f514de8207013ab7f6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 20/65] fix: draw fits without a diameter range

---
 src/craterstats/Craterplot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index c9517cb..628580e 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -255,7 +255,10 @@ class Craterplot:
                 if not self.cratercount.prebinned and self.type in ['poisson','b-poisson']:
                     r=self.range
                 else:
-                    r=gm.range(self.cratercount.generate_bins(self.binning,self.range,expand=False))
+                    r=list(self.range)
+                    if r[0] == 0: r[0]=self.cratercount.binned['d_min'][0] # unconstrained: as in getplotdata()
+                    if r[1] == np.inf: r[1]=self.cratercount.binned['d_max'][-1]
+                    r=gm.range(self.cratercount.generate_bins(self.binning,r,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
                 legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(10**self.a0[0],10**self.a0[2],10**self.a0[1], unit='km-2')]
-- 
2.43.0


From 0afb74f0b1a756eeaa7580b8b0b896bf8ac34ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 21/65] fix: write all uncertainty panels in every requested
 format

---
 src/craterstats/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index e9be008..122347a 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -440,6 +440,7 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         cps.fig.savefig(cps.out + tag + '.' + f, dpi=500, transparent=cps.transparent,
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
+    age_area = None
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
@@ -454,10 +455,10 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                         savefig(f'-{measure}')
             elif cps.presentation == 'uncertainty' and age_area_result is None: # send to single fig output for gui
                 cps.calculate_time_axis_params()
-                age_area_result = cps.compute_age_area()
+                if age_area is None: age_area = cps.compute_age_area() # same result for each format
                 for plt in ('k', 'err', 'age'):
                     cps.draw()
-                    cps.age_area_plot(plt,age_area_result)
+                    cps.age_area_plot(plt,age_area)
                     savefig('_' + plt)
             else:
                 if not drawn:
-- 
2.43.0


From f307fc58bb3313c78575dd7bc749f94d2cf65533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 22/65] fix: write conversions under the requested name

---
 src/craterstats/cli.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 122347a..bf2a29c 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -302,30 +302,27 @@ def construct_plot_dicts(args,plot,cps_dict):
     return cpl
 
 def convert_format(args, cps, cs_content):
-    def outfile(name, out, ext):
-        if out != 'out':
-            if os.path.isdir(out):
-                outfile = out + name + ext
-            else:
-                outfile = gm.filename(out, 'pn') + ext
+    def outfile(name, ext):
+        if args.out is None:
+            out = gm.filename(args.input_filename, 'pn') if args.input else name
+        elif os.path.isdir(args.out):
+            out = os.path.join(args.out, name)
         else:
-            outfile = name + ext
-        return outfile
+            out = gm.filename(args.out, 'pn')
+        return out + ext
 
     fmt, src = args.convert
     scc = cst.Spatialcount(src.replace('%sample%/', cst.PATH + 'sample/'))
     fmt1 = fmt.lstrip(".")
     fmt0 = gm.filename(src,'e').lstrip(".")
-    out = outfile(gm.filename(src, 'n'), cps.out, '.'+fmt1)
+    out = outfile(scc.name, '.'+fmt1)
     match fmt1:
         case 'stat' if fmt0 in ['diam','scc','shp']:
             cc = cst.Cratercount(src)
-            out = gm.filename(out, 'p1e', cc.name)
             cc.WriteStatFile(out)
         case 'scc':
             if fmt0 == 'shp':
                 scc = cst.Spatialcount(src)
-                out = gm.filename(out, 'p1e', scc.name)
                 scc.writeSCCfile(out)
         case 'shp':
             if fmt0 == 'scc':
@@ -334,7 +331,6 @@ def convert_format(args, cps, cs_content):
                 out = gm.filename(out,'pn1e', '[_CRATER,_AREA]')
         case 'png'|'svg'|'pdf':
             if fmt0 in ['shp','scc']:
-                out = re.sub(r'_?CRATER_?', '', out)
                 if not args.input:
                     out = gm.filename(out, 'pn1e','_map')
                     gm.write_textfile(gm.filename(out, 'pn1', '.cs'), cs_content)
-- 
2.43.0


From 5c118944264db1984dacac49b7da91aee8478e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 23/65] fix: merge into an output directory

---
 src/craterstats/miscellaneous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 3e0bfc4..9b7c26a 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -115,8 +115,8 @@ def merge_cratercounts(args,equal_weight=False):
         sys.exit("Specify at least two crater count files.")
 
     out=args.out
-    if not out:
-        out='_'.join(sorted(gm.filename(fs, 'n')))
+    if not out or os.path.isdir(out):
+        out=os.path.join(out or '', '_'.join(sorted(gm.filename(fs, 'n'))))
     out = gm.filename(out, 'pn1', '.diam')
 
     d=[]
-- 
2.43.0


From 3e9c422623bee745e3e60fbb0b2a2b462b1fe16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 24/65] fix: give N(d_ref) for the chosen reference diameter

---
 src/craterstats/Craterplot.py    | 4 ++--
 src/craterstats/Craterplotset.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index 628580e..4813dc1 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -94,7 +94,7 @@ class Craterplot:
             self.t = [cps.cf.t(a0=e) for e in self.a0]
             self.bin_range=p0['bin_range']
 
-        self.n_d = cps.pf.evaluate("cumulative", cps.ref_diameter, self.a0[0])
+        self.n_d = [cps.pf.evaluate("cumulative", cps.ref_diameter, e) for e in self.a0]
 
     # def oplot_n_sigma(self,cps):
     #
@@ -261,7 +261,7 @@ class Craterplot:
                     r=gm.range(self.cratercount.generate_bins(self.binning,r,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
-                legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(10**self.a0[0],10**self.a0[2],10**self.a0[1], unit='km-2')]
+                legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(self.n_d[0],self.n_d[2],self.n_d[1], unit='km-2')]
 
 
         if self.type=='data':
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 93210ab..a2736eb 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -717,12 +717,12 @@ class Craterplotset:
                 elif k in ('t','a0'):
                     v = ','.join([f"{e:{f}}" for e in d[k]])
                 elif k=='n_d':
-                    v = ','.join([f"{10**e:{f}}" for e in d['a0']])
+                    v = ','.join([f"{e:{f}}" for e in d[k]])
                 elif k in ('Latex','MathML'):
                     t = d['t']
                     v0 = cst.str_age(t[0], t[2] - t[0], t[0] - t[1], mu=self.mu, MathML = k=='MathML')
-                    a0 = d['a0']
-                    v1 = gm.scientific_notation(10**a0[0],10**a0[2],10**a0[1], unit='km-2', MathML = k=='MathML')
+                    n_d = d['n_d']
+                    v1 = gm.scientific_notation(n_d[0],n_d[2],n_d[1], unit='km-2', MathML = k=='MathML')
                     v=v0+','+v1
                 elif k==' ':v=' '
                 elif k == 'Range':
-- 
2.43.0


From 852e90480af3f1d5b417f4f2f782afb4223cdbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 25/65] fix: draw fits of binned files with fractional counts

---
 src/craterstats/Craterplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index 4813dc1..1f269d2 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -249,7 +249,7 @@ class Craterplot:
                     if np.abs(self.n_event - self.n) < .001:
                         legend_label += [f'{self.n:0g}']
                     else:
-                        legend_label += [f'{self.n:.1f} (of {self.n_event:d})']
+                        legend_label += [f'{self.n:.1f} (of {self.n_event:.0f})']
                 legend_label[-1] += " craters" + (" (buffered)" if self.cratercount.buffered or self.type=='b-poisson' else "")
             if 'r' in cps.legend:
                 if not self.cratercount.prebinned and self.type in ['poisson','b-poisson']:
-- 
2.43.0


From 1489d77213d4accd8d01140ee89e4de2bfbe4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 26/65] fix: quote names containing separators in csv tables

---
 src/craterstats/Craterplotset.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index a2736eb..635c246 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -1,6 +1,7 @@
 #  Copyright (c) 2021-2025, Greg Michael
 #  Licensed under BSD 3-Clause License. See LICENSE.txt for details.
 import copy
+import re
 import sys
 import os
 
@@ -20,6 +21,11 @@ from progressbar import progressbar
 import craterstats as cst
 import craterstats.gm as gm
 
+def csv_name(s):
+    """name as csv field, quoted only where needed"""
+    s = gm.strip_quotes(s)
+    return '"' + s.replace('"','""') + '"' if re.search('[,"\n]',s) else s
+
 class Craterplotset:
     """
     Base object for set of Craterplots. Holds properties common to all of set.
@@ -727,6 +733,8 @@ class Craterplotset:
                 elif k==' ':v=' '
                 elif k == 'Range':
                     v=txt_range
+                elif k in ('name','source'):
+                    v = csv_name(d[k])
                 else:
                     v = f"{d[k]:{f}}"
                 ln+=[v]
@@ -761,7 +769,7 @@ class Craterplotset:
 
         for i in range(n):
             cpl[i].calculate_age(self)
-            s[i][0]=cpl[i].name
+            s[i][0]=csv_name(cpl[i].name)
 
         for i in range(n):
             for j in range(i if show_self_comparison else i+1,n):
@@ -769,7 +777,7 @@ class Craterplotset:
                 s[i][j+1] = gm.sigfigs(1.-P,2)
                 s[j][i+1] = gm.sigfigs(P,2)
 
-        st='Table of probability that t(x)>t(y)\n'+'\n'.join([','+','.join([cpl[i].name for i in range(n)])]+[','.join(e) for e in s])
+        st='Table of probability that t(x)>t(y)\n'+'\n'.join([','+','.join([csv_name(e.name) for e in cpl])]+[','.join(e) for e in s])
 
         # calculate probability of simultaneous formation vs median time formation
 
-- 
2.43.0


From 0f0fc1c71f1b3aec25bbe6c16500e37f31314ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 27/65] fix: marker sizes no longer shrink when a plot set is
 drawn again

---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 635c246..0eabf1d 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -192,6 +192,7 @@ class Craterplotset:
 
 # set up marker size
         f = self.decades[0] * self.print_scale / 7.5
+        self.marker_def = [e[2].copy() for e in cst.MARKERS]
         for e in self.marker_def:
             e['markersize'] *= 0.8 * f  # * self.print_scale/1.875
             e['markeredgewidth'] = .5 * f  # * self.print_scale/1.875
-- 
2.43.0


From 2b16fac8ebc68fb7f970d9ba964d672a487985ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 28/65] fix: axis title shows a fractional reference diameter

---
 src/craterstats/Craterplotset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 0eabf1d..94a6fda 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -207,8 +207,8 @@ class Craterplotset:
             'differential': 'Differential crater density, km$^{-3}$',
             'R-plot': 'Relative crater density (R)',
             'Hartmann':     'Craters per $√$2-bin'+(' (equivalent)' if nonroot2 else '')+', km$^{-2}$',
-            'chronology':   'Cumulative crater density N(>'+format(self.ref_diameter,'.0f')+' km), km$^{-2}$',
-            'rate':         'Crater formation rate N(>'+format(self.ref_diameter,'.0f')+' km), km$^{-2}$ Ga$^{-1}$',
+            'chronology':   'Cumulative crater density N(>'+format(self.ref_diameter,'g')+' km), km$^{-2}$',
+            'rate':         'Crater formation rate N(>'+format(self.ref_diameter,'g')+' km), km$^{-2}$ Ga$^{-1}$',
             }[self.presentation]
         
         title = ('\n'.join(self.title.split('|')) if self.title else None)
-- 
2.43.0


From 2680e84617284c8152e8e70a246d0eabbbb5d6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 29/65] fix: percentiles within 1e-4 of 100 keep their figures

---
 src/craterstats/gm/string/percentile_sigfigs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/gm/string/percentile_sigfigs.py b/src/craterstats/gm/string/percentile_sigfigs.py
index 77aee58..59bea4c 100644
--- a/src/craterstats/gm/string/percentile_sigfigs.py
+++ b/src/craterstats/gm/string/percentile_sigfigs.py
@@ -1,6 +1,8 @@
 #  Copyright (c) 2025, Greg Michael
 #  Licensed under BSD 3-Clause License. See LICENSE.txt for details.
 
+from decimal import Decimal
+
 import numpy as np
 
 def percentile_sigfigs(p, sf=2):
@@ -13,7 +15,7 @@ def percentile_sigfigs(p, sf=2):
     if p < 50:
         res = f"{p:.{sf}g}"
     else:
-        digits = len(f"{100 - p:.{sf}g}")
-        res = f"{p:.{max(digits - 2, 0)}f}"
+        digits = -Decimal(f"{100 - p:.{sf}g}").as_tuple().exponent
+        res = f"{p:.{max(digits, 0)}f}"
     return res
 
-- 
2.43.0


From 7d7d78f5f4f5bc2a01a4588a47ac1012c0494709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:53 +0000
Subject: [PATCH 30/65] fix: automatic axes skip overplots with nothing to plot

---
 src/craterstats/Craterplotset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 94a6fda..af9c2c2 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -616,7 +616,8 @@ class Craterplotset:
                 ranges.append(cp.get_data_range(self))
             except Exception: # non-cml, binning=none. This is ugly - better to test and skip these (and hidden plots)
                 pass
-        x0, x1, y0, y1 = zip(*ranges) if ranges else  (*cst.DEFAULT_XRANGE[self.presentation], *cst.DEFAULT_YRANGE[self.presentation])
+        ranges = [e for e in ranges if np.all(np.isfinite(e)) and min(e) > 0] # nothing to show for an empty range
+        x0, x1, y0, y1 = zip(*(ranges or [(np.nan,) * 4])) # without any: default ranges below
 
         mx = (.3, .8) # minimum empty margin
         my = [e * (2 if self.presentation=='differential' else 1) for e in [.3,.3]] # minimum empty margin
-- 
2.43.0


From be0ada3d0f65a1473de0110c3bb4491eef5fac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 31/65] fix: time axis ticks labelled with their value

---
 src/craterstats/Craterplotset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index af9c2c2..bc7a496 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -356,7 +356,7 @@ class Craterplotset:
             xtickv0,minor_div = gm.ticks([self.t_min,self.t_max],6, max_minor=12)
             xtickv = [e for e in xtickv0 if self.t_min <= e <= self.t_max]
 
-        xticklabels = [f"{e:.2g}" for e in xtickv]
+        xticklabels = [f"{e:g}" for e in xtickv]
         xticklabels[-1] += ' Ga'
 
         xfrac_linear = lin_units / (lin_units + log_units)
-- 
2.43.0


From 281d30d0f1dcf3f1a18ad344c161789eab4d235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 32/65] fix: areas containing a pole could not be processed

---
 src/craterstats/Randomnessanalysis.py | 10 +++-------
 src/craterstats/Spatialcount.py       | 22 +++++++++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 0a35941..a6e4e76 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -20,6 +20,7 @@ import pyproj as prj
 
 import craterstats as cst
 import craterstats.gm as gm
+from craterstats.Spatialcount import to_planar
 
 
 class Randomnessanalysis(cst.Spatialcount):
@@ -84,9 +85,8 @@ class Randomnessanalysis(cst.Spatialcount):
         sz_ratio = ax.get_position().width/cps.ax.get_position().width
 
         # start from sph_polygons output (p2) from sdaa calc.
-        shp_polygons0 = [shp.from_wkb(sph.to_wkb(p)) for p in p2]
         # flatten any multipolygons (disjoint areas or holes should also be outlined)
-        shp_polygons = [polygon for shape in shp_polygons0 for polygon in (shape.geoms if isinstance(shape, shp.MultiPolygon) else [shape])]
+        shp_polygons = [polygon for p in p2 for polygon in to_planar(p).geoms]
 
         ns = 20
         frac = np.linspace(0, 1-1/ns, ns)
@@ -260,13 +260,9 @@ class Randomnessanalysis(cst.Spatialcount):
             self.ortho_proj = ortho_proj
 
             # do area
-            z = sph.to_wkb(self.polygon)
-            multipolygon = shp.from_wkb(z)
+            multipolygon = to_planar(self.polygon)
             p = []
 
-            if not isinstance(multipolygon, shp.MultiPolygon):
-                multipolygon = shp.MultiPolygon([multipolygon])
-
             for poly in multipolygon.geoms:
                 exterior_x, exterior_y = poly.exterior.xy
                 x_exterior, y_exterior = ortho_proj(exterior_x, exterior_y)
diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 4f2f2c4..86bdfb8 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -18,6 +18,19 @@ import pyproj as prj
 import craterstats as cst
 import craterstats.gm as gm
 
+def to_planar(p):
+    """
+    Convert spherical polygon to shapely multipolygon in lon/lat
+    (a ring around a pole comes back ending 360 degrees from its start)
+    """
+    polygons = []
+    for y in shp.get_parts(shp.from_wkb(sph.to_wkb(p), on_invalid='fix')):
+        if not y.is_empty:
+            rings = [list(r.coords)[:-1] for r in (y.exterior, *y.interiors)]
+            rings = [r[:-1] if abs(abs(r[-1][0] - r[0][0]) - 360) < 1e-9 and r[-1][1] == r[0][1] else r for r in rings]
+            polygons.append(shp.Polygon(rings[0], rings[1:]))
+    return shp.MultiPolygon(polygons)
+
 class Spatialcount:
     '''Reads spatial crater count data'''
 
@@ -319,8 +332,7 @@ class Spatialcount:
             p0=self.polygon
         decomposed=[]
         for p in p0 if isinstance(p0, list) else [p0]:
-            z = sph.to_wkb(p)
-            for y in shp.get_parts(shp.from_wkb(z)):
+            for y in to_planar(p).geoms:
                 x = shp.get_exterior_ring(y)
                 rings = [list(x.coords)]
                 for j in range(shp.get_num_interior_rings(y)):
@@ -346,11 +358,7 @@ class Spatialcount:
         self.ortho_proj = ortho_proj
 
         # do area
-        z = sph.to_wkb(self.polygon)
-        multipolygon = shp.from_wkb(z)
-
-        if not isinstance(multipolygon, shp.MultiPolygon):
-            multipolygon = shp.MultiPolygon([multipolygon])
+        multipolygon = to_planar(self.polygon)
 
         for poly in multipolygon.geoms:
             exterior_x, exterior_y = poly.exterior.xy
-- 
2.43.0


From 5bdb6ffadde0e8d6b054845353c415bfe1b828df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 33/65] fix: random points cover the whole region

---
 src/craterstats/Spatialcount.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 86bdfb8..3c022db 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -204,18 +204,30 @@ class Spatialcount:
     def find_enclosing_polygon(self): # could be moved out to ra
         n_pole = sph.create_point(longitude=0, latitude=90)
         s_pole = sph.create_point(longitude=0, latitude=-90)
-        minx, miny, maxx, maxy = shp.from_wkt(sph.to_wkt(self.polygon)).bounds
-        xr , yr = ( (minx,maxx), (miny,maxy) )
+        x, y = [], []
+        for rings in self.polygon_to_pts():
+            for ring in rings:
+                lon, lat = np.array(ring).T
+                x += gm.range(np.unwrap(lon, period=360))
+                y += gm.range(lat)
+                v = np.array(self.llr2xyz(lon, lat, r=1.)).T
+                for a, b in zip(v[:-1], v[1:]): # great circle edge may reach further towards pole than its ends
+                    n = np.cross(a, b)
+                    top = np.array([0, 0, np.dot(n, n)]) - n * n[2]
+                    for t in (top, -top):
+                        if np.dot(np.cross(n, a), t) > 0 and np.dot(np.cross(b, n), t) > 0:
+                            y.append(math.degrees(math.asin(t[2] / np.linalg.norm(t))))
+        xr, yr = gm.range(x), gm.range(y)
+        if xr[1] - xr[0] >= 360: xr = (-180, 180)
         if sph.covers(self.polygon, n_pole):
-            yr = (miny, 90)
-            xr = (-180,180)
+            yr = (yr[0], 90)
+            xr = (-180, 180)
         if sph.covers(self.polygon, s_pole):
-            yr = (-90, maxy)
+            yr = (-90, yr[1])
             xr = (-180, 180)
         self.xr=xr
         self.yr=yr
-        enclosing_polygon = sph.create_polygon(shell=[(xr[0],yr[0]),(xr[0],yr[1]),(xr[1],yr[1]),(xr[1],yr[0])])
-        self.enclosing_area = sph.area(enclosing_polygon, radius=self.planetary_radius)
+        self.enclosing_area = self.planetary_radius**2 * math.radians(xr[1] - xr[0]) * (math.sin(math.radians(yr[1])) - math.sin(math.radians(yr[0])))
         print(f"Range: {xr[0]:.2f}:{xr[1]:.2f} {yr[0]:.2f}:{yr[1]:.2f}, area: {self.area:.2f} km2, perimeter: {self.perimeter:.2f} km (planetary radius: {self.planetary_radius:0g} km)")
 
 
-- 
2.43.0


From 3e2c81e203878a3a6ef2704fe64f379fe9c8cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 34/65] fix: multipart and polar projected shapefiles

---
 src/craterstats/Spatialcount.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 3c022db..3ef7ed5 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -136,17 +136,14 @@ class Spatialcount:
             sf = shapefile.Reader(shp)
             shapes = sf.shapes()
 
-            if not crs.is_geographic:
-                transformer = prj.Transformer.from_crs(crs, crs.geodetic_crs, always_xy=True)
-                for shape in shapes:
-                    xy = list(zip(*shape.points))
-                    lons, lats = transformer.transform(xy[0], xy[1])
-                    shape.points = [(lon, lat) for lon, lat in zip(lons, lats)]
+            transformer = None if crs.is_geographic else prj.Transformer.from_crs(crs, crs.geodetic_crs, always_xy=True)
+            def lonlat(pts):
+                return list(zip(*transformer.transform(*zip(*pts)))) if transformer else list(pts)
 
-            return shapes, planetary_radius, mtime
+            return shapes, lonlat, planetary_radius, mtime
 
-        sc, rc, tc = read_shp(self.crater_file)
-        sa, ra, ta = read_shp(self.area_file)
+        sc, lonlat_c, rc, tc = read_shp(self.crater_file)
+        sa, lonlat_a, ra, ta = read_shp(self.area_file)
         if rc != ra:
             raise ValueError("Crater/Area shapefile planetary radii disagree")
         self.planetary_radius = rc
@@ -155,11 +152,11 @@ class Spatialcount:
 
         multipolygon = []
         for shp_record in sa:
-            geom = shp.geometry.shape(shp_record.__geo_interface__)
+            geom = shp.geometry.shape(shp_record.__geo_interface__) # resolve parts and holes in map coordinates
             polys = geom.geoms if geom.geom_type == "MultiPolygon" else [geom] # treat polygon and multipolygon uniformly
             for poly in polys:
-                shell = list(poly.exterior.coords)
-                holes = [list(r.coords) for r in poly.interiors]
+                shell = lonlat_a(poly.exterior.coords)
+                holes = [lonlat_a(r.coords) for r in poly.interiors]
                 multipolygon.append(sph.create_polygon(shell=shell, holes=holes))
 
         p = sph.create_multipolygon(multipolygon)
@@ -173,7 +170,7 @@ class Spatialcount:
         lat = []
         transform = cst.fractional_crater_transform()
         for shape in sc:
-            c = sph.create_polygon(shell=shape.points)
+            c = sph.create_polygon(shell=lonlat_c(shape.points))
             c_area = sph.area(c, radius=rc)
             # diam1 = math.sqrt(4*c_area/math.pi)  # flat diameter from area: better behaviour if noisy vertex positions
             # diam2 = sph.perimeter(c,radius = rc)/math.pi # flat diameter from perimeter: greater error if noisy vertex positions
-- 
2.43.0


From 51ffd049e0b3624f77929b9e517565d20e8d8d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 35/65] fix: neighbour search includes cells overlapped by less
 than half

---
 src/craterstats/Randomnessanalysis.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index a6e4e76..ce499c3 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -541,6 +541,13 @@ def random_points_pp(self ,n):
     x = np.random.uniform(self.xr[0], self.xr[1], n)
     return zip(x ,y)
 
+def cells_within(hp, lon, lat, angular_radius):
+    """
+    HEALPix cells which could contain a point within angular_radius (rad) of lon,lat
+    (cone search can miss cells overlapped by less than half their width, so extend by a cell)
+    """
+    return hp.cone_search_lonlat(lon*u.deg, lat*u.deg, angular_radius*u.rad + hp.pixel_resolution)
+
 def sprinkle_discs_pp(self ,n ,diam):
     """
     generate z random points in enclosing area
@@ -562,7 +569,7 @@ def sprinkle_discs_pp(self ,n ,diam):
             if sph.within(pt, self.polygon):
 
                 # erase existing craters closer than diam/2
-                hpx_neighbours = self.hp.cone_search_lonlat(lon*u.deg, lat*u.deg, angular_radius*u.rad)
+                hpx_neighbours = cells_within(self.hp, lon, lat, angular_radius)
                 for id in hpx_neighbours:
                     if id in hpd:
                         len0 = len(hpd[id])
@@ -617,7 +624,7 @@ def kth_nearest_neighbour_pp(self, pts,ids,hpd, k=1):
             debug = 4
 
             # redefine neighbourhood based on known kth closest: if pt near edge, could be over hpx cell boundary
-            hpx_neighbours = self.hp.cone_search_lonlat(sph.get_x(pt) * u.deg, sph.get_y(pt) * u.deg, d0/self.planetary_radius * u.rad)
+            hpx_neighbours = cells_within(self.hp, sph.get_x(pt), sph.get_y(pt), d0/self.planetary_radius)
             d1, pt1 = get_kth(pt, hpx_neighbours)
             debug = 5
             neighbours += [pt1]
-- 
2.43.0


From 108f8727491f7a3b28594f5d53e427743d687715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 36/65] fix: sdaa for small regions

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index ce499c3..28a5fcd 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -648,7 +648,7 @@ def sdaa(self, pts, ids, hpd):
 
     center = np.array([0, 0, 0])
     radius = 1.0
-    sv = SphericalVoronoi(xyz, radius, center, threshold=1e-9)
+    sv = SphericalVoronoi(xyz, radius, center, threshold=1e-12)
     sv.sort_vertices_of_regions()
 
     xyz_polygons = [[sv.vertices[id] for id in region] for region in sv.regions]
-- 
2.43.0


From 6227fbc63ac0500421b7cb7a85bc9fbed4c77223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 37/65] fix: randomness analysis on a single-core machine

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 28a5fcd..4f78711 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -31,7 +31,7 @@ class Randomnessanalysis(cst.Spatialcount):
         super().__init__(filename,area_file)
         self.init_Cratercount()
         self.montecarlo = {}
-        self.max_threads = os.cpu_count()-1
+        self.max_threads = max((os.cpu_count() or 1) - 1, 1)
         self.ra_file = (out if out else self.name) + "_ra.txt"
         self.progress_queue = progress_queue
         self.read()
-- 
2.43.0


From f7e96857c860429ef504eb5e9b84210a933ec004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 38/65] fix: every trial has its own random sequence

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 4f78711..211bc7b 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -160,7 +160,6 @@ class Randomnessanalysis(cst.Spatialcount):
                 self.montecarlo[measure]['trials'][bin] = m
 
     def run_montecarlo(self, trials, measure):
-        np.random.seed(42)
         self.establish_hpx(trials)
         self_pp = self.self_pp(trials, measure)
 
@@ -472,6 +471,7 @@ def evaluate_randomness(self_pp, pts, ids, hpd):
     return measure, p2
 
 def run_trial(self_pp, b, n, trial_index):
+    np.random.seed([trial_index, n, round(2 * math.log2(b)) % 2**32])  # own sequence for each trial, whichever process runs it
     pts, ids, hpd = sprinkle_discs_pp(self_pp, n, b)  # Generate points and ids
     m, _ = evaluate_randomness(self_pp, pts, ids, hpd)
     return m
-- 
2.43.0


From 64b3116ff16c0c15a5029510cb77157c4155e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 39/65] fix: interrupted analysis retains existing results

---
 src/craterstats/Randomnessanalysis.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 211bc7b..8b8d78e 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -144,7 +144,7 @@ class Randomnessanalysis(cst.Spatialcount):
         match measure:
             case 'sdaa': min_count = 4
             case 'm2cnd': min_count = 3
-        self.montecarlo[measure]['trials'] = {}
+        trials = {}
 
         for b,n in zip(self.cc.binned['d_min'],self.cc.binned['n_event']):
             if n >= min_count:
@@ -157,15 +157,15 @@ class Randomnessanalysis(cst.Spatialcount):
                     m = montecarlo_serial(self_pp, b, n)
                 else: # do parallel monte carlo for random configs
                     m = montecarlo_pp(self_pp, b, n, progress_queue=self.progress_queue)
-                self.montecarlo[measure]['trials'][bin] = m
+                trials[bin] = m
+        return trials
 
     def run_montecarlo(self, trials, measure):
         self.establish_hpx(trials)
         self_pp = self.self_pp(trials, measure)
 
         if not measure in self.montecarlo or not self.montecarlo[measure]['n_trials'] >= trials: # skip montecarlo if already have data
-            self.montecarlo[measure] = {'n_trials':trials}
-            self.montecarlo_split(measure, self_pp)
+            self.montecarlo[measure] = {'n_trials':trials, 'trials':self.montecarlo_split(measure, self_pp)} # not before all are complete
 
     def calculate_stats(self):
         for measure in self.montecarlo.keys():
@@ -428,7 +428,9 @@ class Randomnessanalysis(cst.Spatialcount):
                 + trials
                 + ['}'])
             s += s1
-        gm.write_textfile(self.ra_file,s)
+        tmp = f'{self.ra_file}.{os.getpid()}.tmp'
+        gm.write_textfile(tmp,s)
+        os.replace(tmp,self.ra_file) # retain existing results if interrupted
 
     def read(self):
         # allow read from source file location, but write will still be to current dir or -o
-- 
2.43.0


From 811237fc5faf7c7cb3e31a54c4cc219fb2963cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 40/65] fix: one randomness analysis for all plot formats

---
 src/craterstats/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index bf2a29c..236f02e 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -437,10 +437,11 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
     age_area = None
+    ra = None
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
-                ra = randomness_analysis(args, cps,progress_queue=progress_queue)
+                if ra is None: ra = randomness_analysis(args, cps,progress_queue=progress_queue) # same result for each format
                 selection = cst.ra_decode_selection(args.select)
                 for measure in cps.measure:
                     if selection==[0]:
-- 
2.43.0


From adc8b6b9bde36297eada7bb99a2c09e65e76e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 41/65] fix: randomness results without bins

---
 src/craterstats/Cratercount.py        | 1 +
 src/craterstats/Randomnessanalysis.py | 2 +-
 src/craterstats/cli.py                | 4 +++-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 31e7cbc..b5fa43b 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -56,6 +56,7 @@ class Cratercount:
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
         if f:
             c = gm.read_textstructure(f)
+            if not c['n_sigma']['bin']: return None, None
             measures = sorted(set(c['n_sigma'].keys()) - {'bin'})
             trials = [c[m]['n_trials'] for m in measures]
             return c['n_sigma'],trials
diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 8b8d78e..de32462 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -444,7 +444,7 @@ class Randomnessanalysis(cst.Spatialcount):
                         'n_trials':int(c[name]['n_trials']),
                         }
                     self.montecarlo[name]['trials'] = {}
-                    for b in list(c[name]['trials'].keys())[1:]:
+                    for b in [e for e in list(c[name]['trials'].keys())[1:] if e]: # could be without bins
                         self.montecarlo[name]['trials'][b] = [float(e) for e in c[name]['trials'][b]]
 
     def self_pp(self,trials, measure):
diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 236f02e..72b8524 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -444,7 +444,9 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                 if ra is None: ra = randomness_analysis(args, cps,progress_queue=progress_queue) # same result for each format
                 selection = cst.ra_decode_selection(args.select)
                 for measure in cps.measure:
-                    if selection==[0]:
+                    if not ra.montecarlo[measure]['stats']:
+                        print(f"Too few craters for {measure}: nothing to plot")
+                    elif selection==[0]:
                         ra.plot_n_sigma(cps, measure)
                         savefig(f'-{measure}-n_sigma')
                     else:
-- 
2.43.0


From 604223e145606f6886b45f5cce4ad411a85748e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 42/65] fix: randomness results of a shapefile found again

---
 src/craterstats/Cratercount.py        | 3 ++-
 src/craterstats/Randomnessanalysis.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index b5fa43b..f528044 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -52,7 +52,8 @@ class Cratercount:
         return self.filename
 
     def read_ra_file(self):
-        possible_locations = (self.name + '_ra.txt',gm.filename(self.filename,'p')+self.name+'_ra.txt')
+        name = re.sub(r'_?CRATER_?', '', self.name) if gm.filename(self.filename, 'e') == '.shp' else self.name # as in Spatialcount
+        possible_locations = (name + '_ra.txt',gm.filename(self.filename,'p')+name+'_ra.txt')
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
         if f:
             c = gm.read_textstructure(f)
diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index de32462..6578a80 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -434,7 +434,7 @@ class Randomnessanalysis(cst.Spatialcount):
 
     def read(self):
         # allow read from source file location, but write will still be to current dir or -o
-        possible_locations = (self.ra_file, gm.filename(self.filename, 'pn1','_ra.txt'))
+        possible_locations = (self.ra_file, gm.filename(self.filename, 'p') + self.name + '_ra.txt')
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
         if f:
             c = gm.read_textstructure(f)
-- 
2.43.0


From dc14c4d5c11caa4a18a0059ebf5f9ec75bb21b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 43/65] fix: randomness results with a single bin

---
 src/craterstats/miscellaneous.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 9b7c26a..08fa1a9 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -217,10 +217,11 @@ def Hartmann_bins(d_range):
     labels = [str(e) for e in
               (1, 2, 4, 8, 16, 31, 63, 125, 250, 500, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)]
     labels[10] = '  ' + labels[10] + "km"
-    xtickv, xtickname = map(list, zip(*[(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]))
-    if xtickv[0] < 0: xtickname[0] += 'm'
-    xminor = (xtickv[1] - xtickv[0]) / 2
-    xminorv = [e+xminor for e in [xtickv[0]-2*xminor]+xtickv if d_range[0] <= e+xminor <= d_range[1]]
+    ticks = [(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]] # possibly one or none for a single bin
+    xtickv, xtickname = [val for val, _ in ticks], [txt for _, txt in ticks]
+    if xtickv and xtickv[0] < 0: xtickname[0] += 'm'
+    xminor = np.log10(2.) / 2
+    xminorv = [e+xminor for e in [v[0]-2*xminor]+v if d_range[0] <= e+xminor <= d_range[1]]
     return xtickv,xtickname,xminor,xminorv
 
 
-- 
2.43.0


From 07f78e1d53d3feaf0d62093e20ac977f01a05869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 44/65] fix: unreadable user functions file is ignored as
 intended

---
 src/craterstats/miscellaneous.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 08fa1a9..6c98214 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -69,13 +69,13 @@ class Functionslist:
     def __init__(self):
         s = gm.read_textfile(cst.PATH+'config/functions.txt', ignore_hash=True, strip=';', as_string=True)
         self.config = self.user_function_config()
-        if self.config:
-            uf = gm.read_textfile(self.config, ignore_hash=True)[0] if gm.file_exists(self.config) else None
+        if self.config and gm.file_exists(self.config):
+            uf = next((e for e in gm.read_textfile(self.config, ignore_hash=True) if e.strip()), None)
             if uf:
                 try:
-                    s = s + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
-                except:
-                    print("Unable to read user functions file: "+functions_user+" - ignoring.")
+                    s = s + '\n' + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
+                except (OSError, UnicodeError):
+                    print("Unable to read user functions file: "+uf+" - ignoring.")
         self.functions = gm.read_textstructure(s,from_string=True)
 
     def user_function_config(self):
-- 
2.43.0


From 1b67089d45980d8333383dd3aea3f96369b7bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 45/65] fix: user functions file remembered with its full path

---
 src/craterstats/miscellaneous.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 6c98214..51f65f6 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -88,7 +88,9 @@ class Functionslist:
 
     def set_user_functions_config(self,path):
         if path:
-            s = ['#path to functions_user.txt', path]
+            if not self.config: sys.exit("User functions file can only be set in a conda or pyinstaller environment")
+            s = ['#path to functions_user.txt', os.path.abspath(path)] # remains valid after changing directory
+            os.makedirs(os.path.dirname(self.config), exist_ok=True)
             gm.write_textfile(self.config, s)
             print(': '.join(s)[1:])
 
-- 
2.43.0


From 6377b4d1cc708c3681edeb533f619b5966b45842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 46/65] fix: tab before equals sign

---
 src/craterstats/gm/file/read_textstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index ae73a46..a49ef21 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -73,7 +73,7 @@ def evaluate(s):
                 r"(\{\s+(?P<struct_value>(\{[a-zA-Z].*?\}|[^{}]*?)*?)^\s*\}.*?|"
                 r"\"\s*$(?P<text_value>[^{]*)^\s*\".*?|"
                 r"(?P<value>.*?))"
-                r"^\s*(?P<keyword2>[\w\.]*\^?) *="
+                r"^\s*(?P<keyword2>[\w\.]*\^?)[ \t]*="
                 ,s+"\nend=")
       
     if not m: return None #no definitions to process
-- 
2.43.0


From b6caadc70fb598cd31393ca5ba8061e6b636d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 47/65] fix: isochron truncated by the equilibrium function at
 its own diameters

---
 src/craterstats/Productionfn.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index e8f220b..1e74e60 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -243,9 +243,7 @@ class Productionfn:
 
         iso=self.getplotdata(presentation,a0)
         if ef:
-            e=ef.getplotdata(presentation)
-            j= gm.value_locate(e['d'], iso['d'])
-            q= gm.where(iso['y'] < e['y'][j] * .8)
+            q= gm.where(iso['y'] < ef.evaluate(presentation, iso['d']) * .8)
             iso={'presentation':presentation,'d':iso['d'][q],'y':iso['y'][q]}
 
         return iso
-- 
2.43.0


From b4c3d07805b6f1e4413615fbb98332132c05ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 48/65] fix: isochron wholly above equilibrium is left out

---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index bc7a496..3a88418 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -577,6 +577,7 @@ class Craterplotset:
         for t,hide,above,small in isochrons:
             a0 = self.cf.a0(t)
             iso = self.pf.getisochron(self.presentation, a0, self.ef)
+            if len(iso['d']) == 0: continue # wholly above equilibrium
             d10 = np.log10(iso['d'])
             self.ax.plot(d10, iso['y'], color=self.grey[0], lw=.5*self.sz_ratio)
             y_factor = self.data_aspect
-- 
2.43.0


From 8dfc9de4457e8fe3ef3e6352f275f23280a7f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 49/65] fix: isochron label suffix n as documented

---
 src/craterstats/Craterplotset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 3a88418..3fdc707 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -569,8 +569,8 @@ class Craterplotset:
         isochrons = []
         for e in self.isochrons.split(','):
             try:
-                value = abs(float(e.rstrip('ash')))
-                isochrons.append((value, 'h' in e, 'a' in e, 's' in e))
+                value = abs(float(e.rstrip('ashn')))
+                isochrons.append((value, 'h' in e or 'n' in e, 'a' in e, 's' in e))
             except ValueError:
                 continue
 
-- 
2.43.0


From 29c362895d908e152d3282bad61757ccd54ecfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 50/65] fix: epochs defined at non-integer reference diameter

---
 src/craterstats/Epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Epochs.py b/src/craterstats/Epochs.py
index 2d25d21..d086271 100644
--- a/src/craterstats/Epochs.py
+++ b/src/craterstats/Epochs.py
@@ -32,7 +32,7 @@ class Epochs:
         self.name = definition['name']
         self.epoch = definition['epoch']
         self.formatting = definition['formatting']
-        self.ref_diameter = [int(e) for e in definition['ref_diameter']] if 'ref_diameter' in definition else None
+        self.ref_diameter = [float(e) for e in definition['ref_diameter']] if 'ref_diameter' in definition else None
         self.density = [float(e) for e in definition['density']] if 'density' in definition else None
         self.time = [float(e) for e in definition['time']] if 'time' in definition else None
         self.reference = definition['reference']
-- 
2.43.0


From 25e49bbff1244de1cf0927851436febb8eba0fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 51/65] fix: plot data of a tabular function without a0

---
 src/craterstats/Productionfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 1e74e60..79d2d7a 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -222,7 +222,7 @@ class Productionfn:
         :return: dict with series of values for plotting
         '''
         ns=400
-        if a0 is None: a0 = self.a[0]
+        if a0 is None: a0 = self.a[0] if hasattr(self,'a') else 0.
         if range is None: range=self.range
         range=np.clip(range,self.range[0],self.range[1])
         log_d=np.linspace(np.log10(range[0]),np.log10(range[1]),ns)
-- 
2.43.0


From a492d94cca286a229e437efdd7bb874e8148043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 52/65] fix: isochron not drawn across a section above
 equilibrium

---
 src/craterstats/Epochs.py       | 3 ++-
 src/craterstats/Productionfn.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Epochs.py b/src/craterstats/Epochs.py
index d086271..06dd6b6 100644
--- a/src/craterstats/Epochs.py
+++ b/src/craterstats/Epochs.py
@@ -145,7 +145,8 @@ class Epochs:
         for i,(a,b) in enumerate(zip(iso,iso[1:])):
             x=np.concatenate((a['d'], b['d'][::-1]))
             y = np.concatenate((a['y'], b['y'][::-1]))
-            cps.ax.fill(np.log10(x),y, color=cps.grey[3 - colour[i + 1]], edgecolor=None, lw=0,zorder=-2)
+            q = np.isfinite(y)
+            cps.ax.fill(np.log10(x[q]),y[q], color=cps.grey[3 - colour[i + 1]], edgecolor=None, lw=0,zorder=-2)
 
             if boundary[i]:
                 cps.ax.plot(np.log10(a['d']),a['y'], color=cps.grey[0], lw=.3,zorder=-2)
diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 79d2d7a..fd9e387 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -244,6 +244,7 @@ class Productionfn:
         iso=self.getplotdata(presentation,a0)
         if ef:
             q= gm.where(iso['y'] < ef.evaluate(presentation, iso['d']) * .8)
-            iso={'presentation':presentation,'d':iso['d'][q],'y':iso['y'][q]}
+            gap=[i+1 for i,e in enumerate(np.diff(q)) if e>1] # no line across a section above equilibrium
+            iso={'presentation':presentation,'d':np.insert(iso['d'][q],gap,np.nan),'y':np.insert(iso['y'][q],gap,np.nan)}
 
         return iso
-- 
2.43.0


From 5b22030acc944770e98f487a3270988acb9605ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 53/65] fix: legend entry lost beside a fit without one

---
 src/craterstats/Craterplot.py    | 2 +-
 src/craterstats/Craterplotset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index 1f269d2..a63d690 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -197,7 +197,7 @@ class Craterplot:
 
             expansion=np.array([.99,1.01])
             fit=cps.pf.getplotdata(cps.presentation,self.a0[0],range=self.range*expansion)
-            cps.ax.plot(np.log10(fit['d']), fit['y'], label='fit', color=self.colour, lw=.7*cps.sz_ratio)
+            cps.ax.plot(np.log10(fit['d']), fit['y'], label='fit' if self.make_legend_label(cps) else None, color=self.colour, lw=.7*cps.sz_ratio)
 
             if self.show_age:
                 st=cst.str_age(self.t[0], self.t[2] - self.t[0], self.t[0] - self.t[1], cps.sig_figs, mu=cps.mu)
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 3fdc707..40cc649 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -544,7 +544,7 @@ class Craterplotset:
             if skip:
                 skip=False
                 continue
-            if e=='fit':
+            if e=='fit' and h[i].get_marker() in (None,'','None'): # curve of the following entry
                 skip = True
                 if set(self.legend) & set('crN') != set():
                     h1.append((h[i],h[i+1]))
-- 
2.43.0


From 1a1f25488cc3d2737198e06e329c49dc7b1949cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 54/65] fix: count colours of an uncertainty plot depend on the
 drawn counts

---
 src/craterstats/Craterplotset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 40cc649..281bcf2 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -963,7 +963,8 @@ class Craterplotset:
 
         if plt == 'k':
             im = np.flip(np.transpose(np.clip(kk, 0, 8)), 1)
-            imo = self.ax.imshow(im, cmap_k, origin="lower", interpolation='none', alpha=None, aspect='auto', extent=[0, 1, 0, 1])
+            imo = self.ax.imshow(im, cmap_k, origin="lower", interpolation='none', alpha=None, aspect='auto', extent=[0, 1, 0, 1],
+                                 vmin=0, vmax=8)
             cbar = self.fig.colorbar(imo, self.ax_cbar, ticks=[0.5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5])
             cbar.ax.set_yticklabels(['0', '1', '2', '3', '4', '5', '6', '7+'])
             cbar.set_label('$k$' + diameter_text, rotation=90)
-- 
2.43.0


From f5386bdafe61fd61bae132d146394239bc5610c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 55/65] fix: impossible region of an uncertainty plot unshaded
 when it fills the plot

---
 src/craterstats/Craterplotset.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 281bcf2..b2303d9 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -932,8 +932,8 @@ class Craterplotset:
 
         x_exceed = y_exceed = None
 
-        if np.searchsorted(log_area_range, np.log10(max_area)) == 1:
-            y_exceed = (np.log10(max_area) - log_area_range[0]) / gm.mag(log_area_range)
+        if np.log10(max_area) <= log_area_range[1]:
+            y_exceed = max(0., (np.log10(max_area) - log_area_range[0]) / gm.mag(log_area_range))
             p = [[0, y_exceed], [1, y_exceed], [1, 1], [0, 1]]
 
         if self.ef:
@@ -942,6 +942,8 @@ class Craterplotset:
             T_eq = self.cf.t(n1=C_ef_dmin * C[1] / C[0])
 
             match np.searchsorted([self.t_min, self.t_crossover, self.t_max], T_eq):
+                case 0: # all saturated
+                    x_exceed = 1.
                 case 1:
                     x_exceed = (self.xfrac_linear + (1 - self.xfrac_linear) *
                                 (np.log10(self.t_crossover) - np.log10(T_eq)) /
@@ -952,13 +954,13 @@ class Craterplotset:
                 case _:
                     pass
 
-            if x_exceed:
+            if x_exceed is not None:
                 p = [[0, 0], [x_exceed, 0], [x_exceed, 1], [0, 1]]
 
-            if x_exceed and y_exceed:
+            if x_exceed is not None and y_exceed is not None:
                 p = [[0, 0], [x_exceed, 0], [x_exceed, y_exceed], [1, y_exceed], [1, 1], [0, 1]]
         poly = None
-        if x_exceed or y_exceed:
+        if x_exceed is not None or y_exceed is not None:
             poly = Polygon(p, closed=True, facecolor='black' if self.invert else 'white', edgecolor=None, alpha=0.6)
 
         if plt == 'k':
@@ -989,15 +991,15 @@ class Craterplotset:
             if poly: poly.set_alpha(0.7)
 
         def add_saturation_text():
-            if y_exceed and (y_exceed < .98):
+            if y_exceed is not None and (y_exceed < .98):
                 self.ax.text(.82, y_exceed, 'whole globe', size=self.scaled_pt_size * .7, rotation=0,
                              transform=self.ax.transAxes, horizontalalignment='right', verticalalignment='bottom')
             if self.ef:
-                if x_exceed and (x_exceed > .02):
+                if x_exceed is not None and (x_exceed > .02):
                     self.ax.text(x_exceed, .87, 'saturation', size=self.scaled_pt_size * .7, rotation=90,
                                  horizontalalignment='right', verticalalignment='top')
 
-        if x_exceed or y_exceed:
+        if poly:
             self.ax.add_patch(poly)
         add_saturation_text()
 
-- 
2.43.0


From 42a7484761671ba9b74088563af2bfa5cba9a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 56/65] fix: draw the map grid for regions crossing the
 antimeridian, around a pole or as large as the globe

---
 src/craterstats/Spatialcount.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 3ef7ed5..9640dde 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -402,7 +402,10 @@ class Spatialcount:
 
         # do gridlines - this probably needs improving for poles
         if grid:
-            lonr, latr = ortho_proj(xr0, yr0, inverse=True)
+            lon, lat = ortho_proj(*np.meshgrid(np.linspace(*xr0, 25), np.linspace(*yr0, 25)), inverse=True)
+            visible = np.isfinite(lon) & np.isfinite(lat) # frame may extend beyond the globe
+            lonr = gm.range((lon[visible] - cenlon + 180) % 360 - 180 + cenlon) # may continue across antimeridian
+            latr = gm.range(lat[visible])
 
             xtickv = gm.ticks(lonr, 6)
             ytickv = gm.ticks(latr, 6)
@@ -411,16 +414,21 @@ class Spatialcount:
             dlat = ytickv[1]-ytickv[0]
             dlon = xtickv[1]-xtickv[0]
             offset = (ax.transData.transform_point((0, dlat))[1] - ax.transData.transform_point((0, 0))[1])/2e4*cps.scaled_pt_size
+            def globe_line(lon, lat):
+                x, y = ortho_proj(lon, lat)
+                on_near_side = np.isfinite(x)
+                return x[on_near_side], y[on_near_side]
+
             # Plot parallels (latitude lines) and meridians (longitude lines)
             for lat in ytickv[1:-1]:
-                x_par, y_par = ortho_proj(np.linspace(xtickv[0]-dlat, xtickv[-1]+dlat, ns), np.repeat(lat,ns))  # plot meridians
+                x_par, y_par = globe_line(np.linspace(xtickv[0]-dlat, xtickv[-1]+dlat, ns), np.repeat(lat,ns))  # plot meridians
                 ax.plot(x_par, y_par, color=cps.grey[0], linewidth=0.3*cps.sz_ratio)
                 ax.text(np.clip(x_par[-1],xr[0],xr[1]),np.clip(y_par[-1],yr[0],yr[1])-offset,f'{lat:.7g}°',
                         ha='right',va='top',color=cps.grey[0],fontsize=cps.scaled_pt_size*.5)
             for lon in xtickv[1:-1]:
-                x_mer, y_mer = ortho_proj( np.repeat(lon,ns), np.linspace(ytickv[0]-dlon, ytickv[-1]+dlon, ns))  # plot parallels
+                x_mer, y_mer = globe_line(np.repeat(lon,ns), np.linspace(max(ytickv[0]-dlon,-90), min(ytickv[-1]+dlon,90), ns))  # plot parallels
                 ax.plot(x_mer, y_mer, color=cps.grey[0], linewidth=0.3*cps.sz_ratio)
-                ax.text(np.clip(x_mer[0],xr[0],xr[1]),np.clip(y_mer[0],yr[0],yr[1]),f' {lon:.7g}°',
+                ax.text(np.clip(x_mer[0],xr[0],xr[1]),np.clip(y_mer[0],yr[0],yr[1]),f' {lon - 360 * np.sign(lon) if abs(lon) > 180 else lon:.7g}°',
                         ha='left',va='bottom',color=cps.grey[0],fontsize=cps.scaled_pt_size*.5)
 
         ax.set_xlim(xr[0],xr[1])
-- 
2.43.0


From 1877bd0db9b8506fdaedb1cd3f8f39499c01798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:20 +0000
Subject: [PATCH 57/65] fix: map latitude labels: offset relative to the frame

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 9640dde..8311261 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -413,7 +413,7 @@ class Spatialcount:
             ns=50
             dlat = ytickv[1]-ytickv[0]
             dlon = xtickv[1]-xtickv[0]
-            offset = (ax.transData.transform_point((0, dlat))[1] - ax.transData.transform_point((0, 0))[1])/2e4*cps.scaled_pt_size
+            offset = 8e-4*gm.mag(yr)*cps.scaled_pt_size
             def globe_line(lon, lat):
                 x, y = ortho_proj(lon, lat)
                 on_near_side = np.isfinite(x)
-- 
2.43.0


From e8456dd634f45b29aeae2defeae43e34a157650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 58/65] fix: read command files as UTF-8, as they are written

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 72b8524..f7e774d 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -42,7 +42,7 @@ class LoadFromFile(argparse.Action):
             if os.path.isdir(self.work_dir):
                 os.chdir(self.work_dir)
         try:
-            with open(values) as f:
+            with open(values, encoding='utf-8-sig') as f:
                 # parse arguments in the file and store them in the target namespace
                 a=f.read()
                 a=('\n').join([e for e in a.split('\n') if e.strip() and not e.strip().startswith('#')] ) #remove '#' commented lines
-- 
2.43.0


From 6d4a51fbcfd32f6acc0af03d5b0d588d3dc2de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:44 +0000
Subject: [PATCH 59/65] fix: measures in a fixed order in randomness results

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index f7e774d..1a96572 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -405,7 +405,7 @@ def randomness_analysis(args,cps,progress_queue=None):
         diff = cps.measures - {'m2cnd','sdaa'}
         if diff:
             sys.exit(f"Invalid measure: {diff}")
-    for measure in cps.measure:
+    for measure in sorted(cps.measure):
         ra.run_montecarlo(trials, measure)
         # do each loop so as to retain data if interrupted
         ra.calculate_stats()
-- 
2.43.0


From 83bb8782ea0b5424f387ef1af0e12ca4dfed8527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 60/65] fix: trials label in a fixed order

---
 src/craterstats/Craterplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index a63d690..caa8abe 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -151,7 +151,7 @@ class Craterplot:
             for i,m in enumerate(cps.measure):
                 cps.ax_ra.text(xr[0] - mg*.03, y[i], m, color=cps.palette[0], size=.5 * cps.scaled_pt_size,  va='center', ha='right')
                 cps.ax_ra.plot([xr[0] - mg*.027,xr[0] - mg*.005], [y[i]]*2, color=cps.palette[0], lw=.5 * cps.sz_ratio, linestyle=cst.LINESTYLES[m])
-            cps.ax_ra.text(xr[0] - mg * .005, y[-1], ', '.join(set(self.cratercount.n_trials))+" trials", color=cps.palette[0], size=.5 * cps.scaled_pt_size, va='center', ha='right')
+            cps.ax_ra.text(xr[0] - mg * .005, y[-1], ', '.join(sorted(set(self.cratercount.n_trials), key=int))+" trials", color=cps.palette[0], size=.5 * cps.scaled_pt_size, va='center', ha='right')
 
             xtickv, xtickname, _, xminorv = cst.Hartmann_bins([xr[0],xr[1]+.001])
             cps.ax_ra.spines['top'].set_position(('data', cst.n_sigma_scaling(3)))
-- 
2.43.0


From 26f7d3649ad5a5267cac424358f9386282ec315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 61/65] fix: inverted figures independent of style settings
 found in the working directory

---
 src/craterstats/Craterplotset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index b2303d9..fc96f2c 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -94,7 +94,7 @@ class Craterplotset:
 
     def EstablishFontandScaling(self):
 
-        plt.style.use(('default', 'dark_background')[self.invert])
+        plt.style.use(['default', 'dark_background'][:self.invert + 1])
 
         # Path to your local font directory
         font_dir = os.path.join(os.path.dirname(__file__), 'fonts')
-- 
2.43.0


From 512496e339131215ecc9b8b58be534b7fb414c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:23 +0000
Subject: [PATCH 62/65] fix: unsupported conversions no longer reported as
 written

---
 src/craterstats/cli.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 1a96572..cc593f1 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -320,23 +320,20 @@ def convert_format(args, cps, cs_content):
         case 'stat' if fmt0 in ['diam','scc','shp']:
             cc = cst.Cratercount(src)
             cc.WriteStatFile(out)
-        case 'scc':
-            if fmt0 == 'shp':
-                scc = cst.Spatialcount(src)
-                scc.writeSCCfile(out)
-        case 'shp':
-            if fmt0 == 'scc':
-                scc = cst.Spatialcount(src)
-                scc.writeSHPfiles(out)
-                out = gm.filename(out,'pn1e', '[_CRATER,_AREA]')
-        case 'png'|'svg'|'pdf':
-            if fmt0 in ['shp','scc']:
-                if not args.input:
-                    out = gm.filename(out, 'pn1e','_map')
-                    gm.write_textfile(gm.filename(out, 'pn1', '.cs'), cs_content)
-                cps.create_map_plotspace()
-                scc.plot(cps,grid=True)
-                cps.fig.savefig(out, dpi=500, transparent=cps.transparent, bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
+        case 'scc' if fmt0 == 'shp':
+            scc = cst.Spatialcount(src)
+            scc.writeSCCfile(out)
+        case 'shp' if fmt0 == 'scc':
+            scc = cst.Spatialcount(src)
+            scc.writeSHPfiles(out)
+            out = gm.filename(out,'pn1e', '[_CRATER,_AREA]')
+        case 'png'|'svg'|'pdf' if fmt0 in ['shp','scc']:
+            if not args.input:
+                out = gm.filename(out, 'pn1e','_map')
+                gm.write_textfile(gm.filename(out, 'pn1', '.cs'), cs_content)
+            cps.create_map_plotspace()
+            scc.plot(cps,grid=True)
+            cps.fig.savefig(out, dpi=500, transparent=cps.transparent, bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
         case _:
             print(f"{fmt0} to {fmt1} conversion not supported")
             return
-- 
2.43.0


From eb66aac643a41368c3112f918e677bbf0b93c04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:29 +0000
Subject: [PATCH 63/65] fix: refuse files cut short within a table

---
 src/craterstats/gm/file/read_textstructure.py | 1 +
 src/craterstats/miscellaneous.py              | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index a49ef21..82729c6 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -33,6 +33,7 @@ def simple_value(s):
             if v[0]=='}': break
             for t in tag:
                 r[t].append(v.pop(0) if len(v)>0 else '')
+        else: raise ValueError('Table not closed: '+w[0])
     else: 
         r=strip_quotes(s.strip(' \n'))
     
diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 51f65f6..616edeb 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -73,8 +73,10 @@ class Functionslist:
             uf = next((e for e in gm.read_textfile(self.config, ignore_hash=True) if e.strip()), None)
             if uf:
                 try:
-                    s = s + '\n' + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
-                except (OSError, UnicodeError):
+                    user = gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
+                    gm.read_textstructure(user, from_string=True) # should be complete
+                    s = s + '\n' + user
+                except (OSError, ValueError):
                     print("Unable to read user functions file: "+uf+" - ignoring.")
         self.functions = gm.read_textstructure(s,from_string=True)
 
-- 
2.43.0


From 8d604160857ea48bcf721261a00378a46a9354aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 64/65] fix: let -text_halo 0 suppress the halo on count plots

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index cc593f1..bbd404d 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -232,7 +232,7 @@ def construct_cps_dict(args,c,f):
         else:
             c['xrange'] = cst.DEFAULT_XRANGE['Hartmann']
             c['yrange'] = cst.DEFAULT_YRANGE['Hartmann']
-    if not c['text_halo']:
+    if c['text_halo'] is None:
         c['text_halo'] = 0 if c['presentation'] in ('uncertainty','sequence','chronology','rate') else 1
 
     return c
-- 
2.43.0


From fa47e232896e29f74d94b64de4f60b23241ed80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:08 +0000
Subject: [PATCH 65/65] fix: keep the name and place of a command file when
 settings are included after it

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index bbd404d..e7aa969 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -47,7 +47,7 @@ class LoadFromFile(argparse.Action):
                 a=f.read()
                 a=('\n').join([e for e in a.split('\n') if e.strip() and not e.strip().startswith('#')] ) #remove '#' commented lines
                 parser.parse_args(shlex.split(a), namespace)
-                namespace.input_filename = f.name
+                if self.dest == 'input': namespace.input_filename = f.name # home of the command file, not of included settings
                 setattr(namespace, self.dest, True)
         except FileNotFoundError:
             raise argparse.ArgumentError(self, f"File not found: {values}")
-- 
2.43.0

