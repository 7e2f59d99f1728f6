From 9528c675be0f4472210c3f2bc9e0ed7a292d5f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:59 +0000
Subject: [PATCH 001/165] fix: bool_list returned True for F entries

---
 python/getdist/inifile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 7d38a7e..7b4fc9e 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -262,7 +262,11 @@ class IniFile:
 
         if not default:
             default = []
-        return self.split(name, default, tp=bool)
+
+        def as_bool(s):
+            return s if isinstance(s, bool) else IniFile({name: s}).bool(name, None)
+
+        return self.split(name, default, tp=as_bool)
 
     def string(self, name, default=None, allowEmpty=True):
         """
-- 
2.43.0


From e33b75fab23dc6bd390946abd40321abaeac97e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:59 +0000
Subject: [PATCH 002/165] fix: original_filename was left pointing at the last
 INCLUDE or DEFAULT file

---
 python/getdist/inifile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 7b4fc9e..2088639 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -117,6 +117,7 @@ class IniFile:
                         self.readFile(ffile, if_not_defined=True)
                     else:
                         self.readFile(os.path.join(os.path.dirname(filename), ffile), if_not_defined=True)
+                self.original_filename = filename
 
             return self.params
         except:
-- 
2.43.0


From 0478c916b8820e7e8037418b85922392cc114434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:40 +0000
Subject: [PATCH 003/165] fix: ParamInfo.nameEquals did not compare with its
 own name

---
 python/getdist/paramnames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index b25ba5e..7d19f25 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -90,9 +90,9 @@ class ParamInfo:
 
     def nameEquals(self, name):
         if isinstance(name, ParamInfo):
-            return name.name == name
+            return self.name == name.name
         else:
-            return name == name
+            return self.name == name
 
     def setFromString(self, line):
         items = line.split(None, 1)
-- 
2.43.0


From b1d557141bacacc7a1acc95d6b4b7326b6649df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:40 +0000
Subject: [PATCH 004/165] fix: loading a one-parameter .covmat gave a 0-d
 matrix

---
 python/getdist/covmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index d4a4e99..926a3cd 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -36,7 +36,7 @@ class CovMat:
             else:
                 raise Exception('.covmat must now have parameter names header')
             # noinspection PyTypeChecker
-            self.matrix = np.loadtxt(f)
+            self.matrix = np.loadtxt(f, ndmin=2)
 
     def saveToFile(self, filename):
         """
-- 
2.43.0


From e33523114a506b4041abbe5b8ca6fab548b14937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:40 +0000
Subject: [PATCH 005/165] fix: merged covariance had size 0, so correlation()
 was not normalized

---
 python/getdist/covmat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index 926a3cd..7edb536 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -80,6 +80,7 @@ class CovMat:
         map2 = dict(list(zip(params2, list(range(0, l2)))))
         covmap = dict(list(zip(list(range(0, length)), C.paramNames)))
 
+        C.size = length
         C.matrix = np.zeros((length, length))
         for i in range(0, length):
             for j in range(0, length):
-- 
2.43.0


From d5844edcea60c9147fa985d92ab45f88cb307d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:40 +0000
Subject: [PATCH 006/165] fix: variance of a list of parameters ignored the
 sample filter

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 1a8507c..d06c9a9 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -677,7 +677,7 @@ class WeightedSamples:
         :return: parameter variance
         """
         if isinstance(paramVec, (list, tuple)):
-            return np.array([self.var(p) for p in paramVec])
+            return np.array([self.var(p, where) for p in paramVec])
         if where is not None:
             return np.dot(self.mean_diff(paramVec, where) ** 2, self.weights[where]) / self.get_norm(where)
         else:
-- 
2.43.0


From dba7c325c60894964adbdb4f0e4928e18d1b32f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:19 +0000
Subject: [PATCH 007/165] fix: samples whose best-fit point has most of the
 weight could not be analysed (empty N-D region)

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 78da13a..e3286c7 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2025,7 +2025,7 @@ class MCSamples(Chains):
         # get N-dimensional confidence region
         indexes = self.loglikes.argsort()
         cumsum = np.cumsum(self.weights[indexes])
-        m.ND_cont1, m.ND_cont2 = np.searchsorted(cumsum, self.norm * self.contours[0:2])
+        m.ND_cont1, m.ND_cont2 = np.maximum(1, np.searchsorted(cumsum, self.norm * self.contours[0:2]))
         for j, par in enumerate(self.paramNames.names):
             region1 = self.samples[indexes[:m.ND_cont1], j]
             region2 = self.samples[indexes[:m.ND_cont2], j]
-- 
2.43.0


From 2ba78c609f0805cab699447836b7771805ec753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:10 +0000
Subject: [PATCH 008/165] fix: chain boundaries were wrong after thinning, burn
 removal or filtering by index of combined chains

---
 python/getdist/chains.py | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index d06c9a9..79f2226 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1140,14 +1140,41 @@ class Chains(WeightedSamples):
         if self.chains is None:
             if self.chain_offsets is not None:
                 # must update chain_offsets to be able to correctly split back into separate filtered chains if needed
-                lens = [0]
-                for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
-                    lens.append(np.count_nonzero(where[off1:off2]))
-                self.chain_offsets = np.cumsum(np.array(lens))
+                self._updateChainOffsets(where)
             super().filter(where)
         else:
             raise ValueError('chains are separated, makeSingle first or call filter on individual chains')
 
+    def _updateChainOffsets(self, where):
+        if self.chain_offsets is not None:
+            nchains = len(self.chain_offsets) - 1
+            chain_ix = np.repeat(np.arange(nchains), np.diff(self.chain_offsets))[where]
+            if np.any(np.diff(chain_ix) < 0):
+                self.chain_offsets = None
+            else:
+                self.chain_offsets = np.searchsorted(chain_ix, np.arange(nchains + 1))
+
+    def thin(self, factor: int):
+        """
+        Thin the samples by the given factor, giving set of samples with unit weight
+
+        :param factor: The factor to thin by
+        """
+        offsets_where = None if self.chain_offsets is None else self.thin_indices(factor)
+        super().thin(factor)
+        if offsets_where is not None:
+            self._updateChainOffsets(offsets_where)
+
+    def removeBurn(self, remove=0.3):
+        """
+        removes burn in from the start of the samples
+
+        :param remove: fraction of samples to remove, or if int >1, the number of sample rows to remove
+        """
+        if self.chain_offsets is not None:
+            self._updateChainOffsets(slice(int(remove) if remove >= 1 else int(round(self.numrows * remove)), None))
+        super().removeBurn(remove)
+
     def weighted_thin(self, factor: int):
         """
         Thin the samples by the given factor, giving (in general) non-unit integer weights.
-- 
2.43.0


From e481dccf98ba794844f08d252a43f1cbd7f136b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:10 +0000
Subject: [PATCH 009/165] fix: combined chains without likelihoods could not be
 separated again

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 79f2226..81d359a 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1495,7 +1495,7 @@ class Chains(WeightedSamples):
         else:
             for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
                 chainlist.append(WeightedSamples(samples=self.samples[off1:off2], weights=self.weights[off1:off2],
-                                                 loglikes=self.loglikes[off1:off2]))
+                                                 loglikes=slice_or_none(self.loglikes, off1, off2)))
         return chainlist
 
     def removeBurnFraction(self, ignore_frac):
-- 
2.43.0


From ace9df692a102185c4ec55772822b36a73831e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:10 +0000
Subject: [PATCH 010/165] fix: parameters constant in the first chain only were
 deleted as fixed

---
 python/getdist/chains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 81d359a..3d5341b 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1521,8 +1521,9 @@ class Chains(WeightedSamples):
             fixed, values = super().deleteFixedParams()
             self.chains = None
         else:
-            fixed, values = self.chains[0].deleteFixedParams()
-            for chain in self.chains[1:]:
+            fixed, values = WeightedSamples(samples=np.vstack([chain.samples for chain in self.chains]),
+                                            min_weight_ratio=-1).deleteFixedParams()
+            for chain in self.chains:
                 chain.changeSamples(np.delete(chain.samples, fixed, 1))
         if hasattr(self, 'ranges'):
             for ix, value in zip(fixed, values):
-- 
2.43.0


From 56b58ea1a7b7b7ba9b8e7ff9c845053bf56dfeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:10 +0000
Subject: [PATCH 011/165] fix: saveAsText to name.txt wrote name..txt

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 3d5341b..3bdfbed 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1047,7 +1047,7 @@ class WeightedSamples:
         if make_dirs and not os.path.exists(os.path.dirname(root)):
             os.makedirs(os.path.dirname(root))
         if root.endswith('.txt'):
-            root = root[:-3]
+            root = root[:-4]
         # noinspection PyTypeChecker
         np.savetxt(root + ('' if chain_index is None else '_' + str(chain_index + 1)) + '.txt',
                    np.hstack((self.weights.reshape(-1, 1), loglikes.reshape(-1, 1), self.samples)),
-- 
2.43.0


From 13ee900857721e2d0104880888d9a829a98466a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:10 +0000
Subject: [PATCH 012/165] fix: correlation length of very correlated chains
 ignored all correlations

---
 python/getdist/chains.py    | 4 ++--
 python/getdist/mcsamples.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 3bdfbed..b554acf 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -461,8 +461,8 @@ class WeightedSamples:
         """
         if corr is None:
             corr = self.getAutocorrelation(j, self.numrows // 10, weight_units=weight_units)
-        ix = np.argmin(corr > min_corr * corr[0])
-        N = corr[0] + 2 * np.sum(corr[1:ix])
+        below = np.flatnonzero(corr <= min_corr * corr[0])
+        N = corr[0] + 2 * np.sum(corr[1:below[0] if below.size else None])
         return N
 
     def getEffectiveSamples(self, j=0, min_corr=0.05):
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index e3286c7..9406f09 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -870,8 +870,8 @@ class MCSamples(Chains):
                 for chain in chainlist:
                     corr += chain.getAutocorrelation(j, maxoff, normalized=False) * chain.norm
                 corr /= self.norm * self.vars[j]
-                ix = np.argmin(corr > 0.05 * corr[0])
-                N = corr[0] + 2 * np.sum(corr[1:ix])
+                below = np.flatnonzero(corr <= 0.05 * corr[0])
+                N = corr[0] + 2 * np.sum(corr[1:below[0] if below.size else None])
                 maxN = max(N, maxN)
                 form = '%15.2E'
                 if self.mean_mult > 1:
-- 
2.43.0


From c44177c47d18f6ce1d4c38c5dc3a23e815a09efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:17 +0000
Subject: [PATCH 013/165] fix: writeThinData wrote the first rows rather than
 the thinned ones, all on one line

---
 python/getdist/mcsamples.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 9406f09..c13eba2 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -554,7 +554,6 @@ class MCSamples(Chains):
             logging.info('Cooled thinned output with temp: %s', cool)
         MaxL = np.max(self.loglikes)
         with open(fname, 'w', encoding='utf-8') as f:
-            i = 0
             for thin in thin_ix:
                 if cool != 1:
                     newL = self.loglikes[thin] * cool
@@ -562,13 +561,13 @@ class MCSamples(Chains):
                         np.exp(-(newL - self.loglikes[thin]) - MaxL * (1 - cool))))
                     f.write("%16.7E" % newL)
                     for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
+                        f.write("%16.7E" % (self.samples[thin][j]))
                 else:
-                    f.write("%f" % 1.)
-                    f.write("%f" % (self.loglikes[thin]))
+                    f.write("%16.7E" % 1.)
+                    f.write("%16.7E" % (self.loglikes[thin]))
                     for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
-                i += 1
+                        f.write("%16.7E" % (self.samples[thin][j]))
+                f.write("\n")
         print('Wrote ', len(thin_ix), ' thinned samples')
 
     def getCovMat(self):
-- 
2.43.0


From c3803960713a6390e315ba01608db1a1ead0013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 014/165] fix: documented fractional ignore_rows failed for
 WeightedSamples and Chains

---
 python/getdist/chains.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index b554acf..9084156 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -228,6 +228,8 @@ class WeightedSamples:
 
         self.precision = '%.8e'
         self.min_weight_ratio = min_weight_ratio
+        ignore_frac = ignore_rows if 0 < ignore_rows < 1 else 0
+        ignore_rows = int(ignore_rows)
         if filename:
             cols = loadNumpyTxt(filename, skiprows=ignore_rows)
             if not len(cols):
@@ -242,6 +244,8 @@ class WeightedSamples:
             if samples is not None and int(ignore_rows):
                 if print_load_details:
                     print('Removed %s lines as burn in' % ignore_rows)
+        if ignore_frac and self.samples is not None:
+            self.removeBurn(ignore_frac)
         self.label = label
         self.needs_update = True
 
@@ -1401,9 +1405,11 @@ class Chains(WeightedSamples):
             dim = array_dimension(files_or_samples)
             if dim in [1, 2]:
                 self.chains = None
-                self.setSamples(slice_or_none(files_or_samples, ignore_lines),
-                                slice_or_none(weights, ignore_lines),
-                                slice_or_none(loglikes, ignore_lines), self.min_weight_ratio)
+                self.setSamples(slice_or_none(files_or_samples, int(ignore_lines)),
+                                slice_or_none(weights, int(ignore_lines)),
+                                slice_or_none(loglikes, int(ignore_lines)), self.min_weight_ratio)
+                if 0 < ignore_lines < 1:
+                    self.removeBurn(ignore_lines)
                 if self.paramNames is None:
                     self.paramNames = ParamNames(default=self.n)
                 nchains = 1
-- 
2.43.0


From 4aa0fe9b67ddbca6cf16b9f16652299a16bcb539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:52 +0000
Subject: [PATCH 015/165] fix: chains could not be loaded by root name from, or
 saved with make_dirs to, the current directory

---
 python/getdist/chains.py    | 4 ++--
 python/getdist/mcsamples.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 9084156..67120bf 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -98,7 +98,7 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
         basename = os.path.basename(root)
         reg_exp = re.compile(re.escape(basename) + '(' + re.escape(separator) + '(?P<num>[0-9]+))?' + re.escape(ext))
     files = []
-    for f in os.listdir(folder):
+    for f in os.listdir(folder or '.'):
         match = reg_exp.fullmatch(f)
         if match:
             index = int(match.group("num") or 0)
@@ -1048,7 +1048,7 @@ class WeightedSamples:
             loglikes = self.loglikes
         else:
             loglikes = np.zeros(self.numrows)
-        if make_dirs and not os.path.exists(os.path.dirname(root)):
+        if make_dirs and os.path.dirname(root) and not os.path.exists(os.path.dirname(root)):
             os.makedirs(os.path.dirname(root))
         if root.endswith('.txt'):
             root = root[:-4]
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index c13eba2..3e99ad6 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -80,7 +80,7 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         folder = os.path.dirname(file_root)
         prefix = os.path.basename(file_root)
         allfiles = files + [
-            os.path.join(folder, f) for f in os.listdir(folder) if (
+            os.path.join(folder, f) for f in os.listdir(folder or '.') if (
                     f.startswith(prefix) and
                     any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]
     if not no_cache and os.path.exists(cachefile) and last_modified(allfiles) < os.path.getmtime(cachefile):
-- 
2.43.0


From 9b989e9fde39c7d9288215f4912cfdb3bfdf0ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:52 +0000
Subject: [PATCH 016/165] fix: samples with dotted parameter names (a.b) could
 not be combined

---
 python/getdist/mcsamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 3e99ad6..b623370 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2389,9 +2389,7 @@ class MCSamples(Chains):
         else:
             fac = np.sum(self.weights) / np.sum(samps2.weights)
         weights = np.concatenate([self.weights * sample_weights[0], samps2.weights * sample_weights[1] * fac])
-        p1 = self.getParams()
-        p2 = samps2.getParams()
-        samples = np.array([np.concatenate([getattr(p1, name), getattr(p2, name)]) for name in params.list()]).T
+        samples = np.array([np.concatenate([self[name], samps2[name]]) for name in params.list()]).T
         samps = MCSamples(samples=samples, weights=weights, loglikes=loglikes, paramNamesFile=params, ignore_rows=0,
                           ranges=self.ranges, settings=copy.deepcopy(self.ini.params))
         return samps
-- 
2.43.0


From 58a3d4ccae6e596147f9154b12e512b9c6c40e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:20 +0000
Subject: [PATCH 017/165] fix: saving chains as name.txt put the parameter
 names in name.txt.paramnames

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 67120bf..96d913d 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1548,7 +1548,7 @@ class Chains(WeightedSamples):
         """
         super().saveAsText(root, chain_index, make_dirs)
         if not chain_index:
-            self.saveTextMetadata(root)
+            self.saveTextMetadata(root[:-4] if root.endswith('.txt') else root)
 
     def saveTextMetadata(self, root):
         """
-- 
2.43.0


From 848364b96545526a848eb87666172f7cf1e6ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:59 +0000
Subject: [PATCH 018/165] fix: an empty chain file made loading fail rather
 than being ignored

---
 python/getdist/chains.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 96d913d..3d06cc7 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -127,8 +127,11 @@ def loadNumpyTxt(fname, skiprows=None):
     """
     try:
         if pandas:
-            return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
-                                   skiprows=skiprows, comment='#').values
+            try:
+                return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
+                                       skiprows=skiprows, comment='#').values
+            except pandas.errors.EmptyDataError:
+                return np.empty((0, 0))
         else:
             global _pandas_suggestion
             if _pandas_suggestion:
-- 
2.43.0


From 44f07e52364c0ebd99376d70877e528f91dc63db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:35 +0000
Subject: [PATCH 019/165] fix: cached samples were returned with the settings
 of an earlier load, or after chain files were removed

---
 python/getdist/mcsamples.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index b623370..c8f382b 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -83,15 +83,16 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
             os.path.join(folder, f) for f in os.listdir(folder or '.') if (
                     f.startswith(prefix) and
                     any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]
-    if not no_cache and os.path.exists(cachefile) and last_modified(allfiles) < os.path.getmtime(cachefile):
+    samples.source_files = sorted(f for f in allfiles if os.path.exists(f))
+    if not no_cache and files and os.path.exists(cachefile) and last_modified(allfiles) < os.path.getmtime(cachefile):
         try:
             with open(cachefile, 'rb') as inp:
                 cache = pickle.load(inp)
+            # the cache is only valid for the same files and settings
             if cache.version == pickle_version and samples.ignore_rows == cache.ignore_rows \
-                    and samples.min_weight_ratio == cache.min_weight_ratio:
-                changed = len(samples.contours) != len(cache.contours) or \
-                          np.any(np.array(samples.contours) != np.array(cache.contours))
-                cache.updateSettings(ini=ini, settings=settings, doUpdate=changed)
+                    and samples.min_weight_ratio == cache.min_weight_ratio \
+                    and cache.source_files == samples.source_files and cache.ini.params == samples.ini.params \
+                    and (cache.jobItem is None) == (jobItem is None):
                 return cache
         except Exception:
             pass
-- 
2.43.0


From 567d4d8abee20c776070555f6c5006897469170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:18 +0000
Subject: [PATCH 020/165] fix: convolveGaussianDCT failed with its default
 cache=None

---
 python/getdist/convolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/convolve.py b/python/getdist/convolve.py
index 78c9a0d..6c8475e 100644
--- a/python/getdist/convolve.py
+++ b/python/getdist/convolve.py
@@ -165,7 +165,8 @@ def convolveGaussianDCT(x, sigma, pad_sigma=4, mode='same', cache=None):
     gauss = cache.get((s, hnorm)) if cache is not None else None
     if gauss is None:
         gauss = np.exp(-(np.arange(0, s) * (np.pi * hnorm)) ** 2 / 2.)
-        cache[(s, hnorm)] = gauss
+        if cache is not None:
+            cache[(s, hnorm)] = gauss
     res = fftpack.idct(fftpack.dct(padded_x, overwrite_x=fill > 0) * gauss, overwrite_x=fill > 0) / (2 * s)
     if fill == 0:
         return res
-- 
2.43.0


From 8def36da09f0f9ffb9401f72f7e68fbffa29881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:18 +0000
Subject: [PATCH 021/165] fix: convolveGaussianTrunc returned an empty array
 for kernels narrower than a pixel

---
 python/getdist/convolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/convolve.py b/python/getdist/convolve.py
index 6c8475e..c16a9ef 100644
--- a/python/getdist/convolve.py
+++ b/python/getdist/convolve.py
@@ -221,11 +221,11 @@ def convolveGaussianTrunc(x, sigma, sigma_range=4, mode='same', cache=None):
             cache[(fill, actual_size, sigma)] = gauss
     res = np.fft.irfft(np.fft.rfft(x, s) * gauss, s)[:actual_size]
     if mode == 'same':
-        return res[fill:-fill]
+        return res[fill:actual_size - fill]
     elif mode == 'full':
         return res
     elif mode == 'valid':
-        return res[2 * fill:-2 * fill]
+        return res[2 * fill:actual_size - 2 * fill]
 
 
 def dct2d(a):
-- 
2.43.0


From 1cb4a627b3a4b8402049e1507070525def1005a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:09 +0000
Subject: [PATCH 022/165] fix: use_effective_samples_2D setting was never used

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index c8f382b..27866ed 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -378,6 +378,7 @@ class MCSamples(Chains):
         if self.force_twotail:
             logging.warning('Computing two tail limits')
         ini.setAttr('max_corr_2D', self)
+        ini.setAttr('use_effective_samples_2D', self)
 
         if ini.hasKey('contours'):
             ini.setAttr('contours', self)
@@ -1193,7 +1194,7 @@ class MCSamples(Chains):
             return h
 
     def getAutoBandwidth2D(self, bins, parx, pary, paramx, paramy, corr, rangex, rangey, base_fine_bins_2D,
-                           mult_bias_correction_order=None, min_corr=0.2, N_eff=None, use_2D_Neff=False):
+                           mult_bias_correction_order=None, min_corr=0.2, N_eff=None, use_2D_Neff=None):
         """
         Get optimized kernel density bandwidth matrix in parameter units, using Improved Sheather Jones method in
         sheared parameters. The shearing is determined using the covariance, so you know the distribution is
-- 
2.43.0


From 5417ef1ce825205f1a985227c532e7dd444d5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:45 +0000
Subject: [PATCH 023/165] fix: Density2D.Prob did not return the density

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 3dd213a..deff9cd 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -287,7 +287,7 @@ class Density2D(GridDensity):
         :param y: y value or array
         :param grid: whether to make a grid, see :class:`~scipy:scipy.interpolate.RectBivariateSpline`. Default False.
         """
-        self.__call__(x, y, grid=grid)
+        return self.__call__(x, y, grid=grid)
 
     def __call__(self, *args, **kwargs):
         if self.spl is None:
-- 
2.43.0


From 434a849aa08f0483e4a95ce08c033d10f94bee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:45 +0000
Subject: [PATCH 024/165] fix: Density1D.getLimits returned only the first
 limit for a list of limits

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index deff9cd..c51adee 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -241,7 +241,7 @@ class Density1D(GridDensity):
                 i = g.bign - np.argmax(g.grid[::-1] > trial) - 1
                 d = (g.grid[i] - trial) / (g.grid[i] - g.grid[i + 1])
                 mx = self.x[0] + (i + d) * finespace
-            if parr is not p:
+            if np.ndim(p) == 0:
                 return mn, mx, lim_bot, lim_top
             results.append((mn, mx, lim_bot, lim_top))
         return results
-- 
2.43.0


From a171b767d11b73f9d0c07d2258e7f74bd10ccf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:45 +0000
Subject: [PATCH 025/165] fix: 1D density limits interpolated the density level
 the wrong way, and failed at the peak

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index c51adee..ddd479f 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -223,7 +223,7 @@ class Density1D(GridDensity):
             if ix > 0:
                 d = g.cumsum[ix] - g.cumsum[ix - 1]
                 frac = (g.cumsum[ix] - target) / d
-                trial = (1 - frac) * trial + frac * g.sortgrid[ix + 1]
+                trial = (1 - frac) * trial + frac * g.sortgrid[ix - 1]
 
             finespace = self.spacing / g.factor
             lim_bot = (g.grid[0] >= trial)
-- 
2.43.0


From 5a90b5ae46885de70bdbaef5d6fe493ab649c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:45 +0000
Subject: [PATCH 026/165] fix: contour levels falling on an edge bin were half
 the density there

---
 python/getdist/densities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index ddd479f..24da185 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -43,8 +43,8 @@ def getContourLevels(inbins, contours=defaultContours, missing_norm=0, half_edge
     targets = (1 - np.array(contours)) * norm - missing_norm
     bins = abins.reshape(-1)
     indexes = inbins.reshape(-1).argsort()
-    sortgrid = bins[indexes]
-    cumsum = np.cumsum(sortgrid)
+    sortgrid = inbins.reshape(-1)[indexes]
+    cumsum = np.cumsum(bins[indexes])
     ixs = np.searchsorted(cumsum, targets)
     for i, ix in enumerate(ixs):
         if ix == 0:
-- 
2.43.0


From d3c078c8a3239d67705ac8e5b4be8aabdb891b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:10 +0000
Subject: [PATCH 027/165] fix: DensityND integral ignored the grid spacing and
 failed when one axis was short

---
 python/getdist/densities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 24da185..7f76a26 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -330,7 +330,7 @@ class DensityND(GridDensity):
 
     def integrate(self, P):
 
-        ndim = len(P)
+        ndim = P.ndim
 
         multinorm = np.zeros(ndim + 1)
 
@@ -357,7 +357,7 @@ class DensityND(GridDensity):
 
             norm += multinorm[i] / 2 ** i
 
-        return norm
+        return norm * self.spacing
 
     def norm_integral(self):
         return self.integrate(self.P)
-- 
2.43.0


From d0bfdf37254a2687500389f8c4dc68936e6704b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:10 +0000
Subject: [PATCH 028/165] fix: DensityND could not be evaluated (its grid axes
 were taken as scattered points)

---
 python/getdist/densities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 7f76a26..7eb8fe3 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.interpolate import splrep, splev, RectBivariateSpline, LinearNDInterpolator
+from scipy.interpolate import splrep, splev, RectBivariateSpline, RegularGridInterpolator
 from typing import Sequence
 
 
@@ -298,7 +298,7 @@ class Density2D(GridDensity):
 class DensityND(GridDensity):
     """
     Class for ND marginalized densities, inheriting from :class:`GridDensity`
-    and :class:`~scipy:scipy.interpolate.LinearNDInterpolator`.
+    interpolated with :class:`~scipy:scipy.interpolate.RegularGridInterpolator`.
 
     This is not well tested recently.
     """
@@ -363,7 +363,7 @@ class DensityND(GridDensity):
         return self.integrate(self.P)
 
     def _initSpline(self):
-        self.spl = LinearNDInterpolator(self.xs, self.P.T, rescale=True)
+        self.spl = RegularGridInterpolator(self.xs, self.P.T, bounds_error=False)
 
     def Prob(self, xs):
         """
-- 
2.43.0


From c0eb0cef6e8b2d2701d72de5e90bd737377da679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:55 +0000
Subject: [PATCH 029/165] fix: limits, tables, covariance and other results
 requested after changing the samples were stale or failed

---
 python/getdist/mcsamples.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 27866ed..680d0a4 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -579,6 +579,8 @@ class MCSamples(Chains):
 
         :return: A :class:`~.covmat.CovMat` object holding the covariance
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         nparamNonDerived = self.paramNames.numNonDerived()
         return covmat.CovMat(matrix=self.fullcov[:nparamNonDerived, :nparamNonDerived],
                              paramNames=self.paramNames.list()[:nparamNonDerived])
@@ -634,6 +636,8 @@ class MCSamples(Chains):
         :param n_best_only: return just the short summary constraint for the tightest n_best_only constraints
         :return: a string description of the output of the PCA
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         logging.info('Doing PCA for %s parameters', len(params))
         if len(conditional_params):
             logging.info('conditional %u fixed parameters', len(conditional_params))
@@ -817,6 +821,8 @@ class MCSamples(Chains):
 
         :return: The summary text as a string.
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         lines = 'using %s rows, %s parameters; mean weight %s, tot weight %s\n' % (
             self.numrows, self.paramNames.numParams(), self.mean_mult, self.norm)
         if self.indep_thin != 0:
@@ -846,6 +852,8 @@ class MCSamples(Chains):
         :param feedback: If set to True, Prints the output as well as returning it.
         :return: text giving the output of the tests
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         lines = ''
         nparam = self.n
 
@@ -2059,6 +2067,8 @@ class MCSamples(Chains):
 
         :return: a :class:`~.parampriors.ParamBounds` instance
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         bounds = ParamBounds()
         bounds.names = self.paramNames.list()
         for par in self.paramNames.names:
@@ -2075,6 +2085,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The upper limit if name exists, None otherwise.
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmax', None)
@@ -2087,6 +2099,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The lower limit if name exists, None otherwise.
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmin', None)
@@ -2132,6 +2146,8 @@ class MCSamples(Chains):
                  result.names[i].ND_limit_top, result.names[i].ND_limit_bot, and best-fit sample value
                  in result.names[i].bestfit_sample
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         return self.likeStats or self._setLikeStats()
 
     def getTable(self, columns=1, include_bestfit=False, **kwargs):
@@ -2204,6 +2220,8 @@ class MCSamples(Chains):
         :param max_frac_twotail: optional override for self.max_frac_twotail
         :param meanlikes: include mean likelihoods
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         if self.done_1Dbins:
             return
 
@@ -2290,6 +2308,8 @@ class MCSamples(Chains):
         :param nparam: maximum number of pairs to get
         :return: list of [x,y] pair names
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         nparam = nparam or self.paramNames.numNonDerived()
         try_t = 1e5
         x, y = 0, 0
-- 
2.43.0


From b0ddbbdc9dbf79be0ef0f365301eb69f62ecff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:55 +0000
Subject: [PATCH 030/165] fix: getBounds gave limits far from the samples until
 densities had been calculated

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 680d0a4..7580b81 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2071,7 +2071,8 @@ class MCSamples(Chains):
             self.updateBaseStatistics()
         bounds = ParamBounds()
         bounds.names = self.paramNames.list()
-        for par in self.paramNames.names:
+        for j, par in enumerate(self.paramNames.names):
+            self._initParamRanges(j)
             if par.has_limits_bot:
                 bounds.lower[par.name] = par.limmin
             if par.has_limits_top:
-- 
2.43.0


From b065ef4ab55c37af9f2fb3261bfd6876f95c302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:55 +0000
Subject: [PATCH 031/165] fix: range_ND_contour extended the upper parameter
 range differently from the lower

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 7580b81..e4fa0b1 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -1351,7 +1351,7 @@ class MCSamples(Chains):
             if self.range_ND_contour >= par.ND_limit_bot.size:
                 raise SettingError("range_ND_contour should be -1 (off), or 0, 1 for first or second contour level")
             par.range_min = min(max(par.range_min - par.err, par.ND_limit_bot[self.range_ND_contour]), par.range_min)
-            par.range_max = max(max(par.range_max + par.err, par.ND_limit_top[self.range_ND_contour]), par.range_max)
+            par.range_max = max(min(par.range_max + par.err, par.ND_limit_top[self.range_ND_contour]), par.range_max)
 
         smooth_1D = par.sigma_range * 0.4
 
-- 
2.43.0


From 05d02a72e4da1d53173962a9bb053820826d8569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:55 +0000
Subject: [PATCH 032/165] fix: 2D bandwidths of two bounded parameters differed
 for strong negative and positive correlation

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index e4fa0b1..b1fa45a 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -1289,7 +1289,7 @@ class MCSamples(Chains):
                     # print 'derotated pars', hx, hy, c
             except ValueError as e:
                 hx, hy, c = fallback_widths(e)
-        elif abs(corr) > self.max_corr_2D or not do_correlated and corr > 0.8:
+        elif abs(corr) > self.max_corr_2D or not do_correlated and abs(corr) > 0.8:
             c = max(min(corr, self.max_corr_2D), -self.max_corr_2D)
             hx = parx.sigma_range / N_eff ** (1. / 6)
             hy = pary.sigma_range / N_eff ** (1. / 6)
-- 
2.43.0


From 461aae1df60c2bcc3f262282fac5c5cf87d214f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:06 +0000
Subject: [PATCH 033/165] fix: getCorrelatedVariable2DPlots failed unless the
 correlation matrix had been asked for before

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index b1fa45a..c096e9a 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2315,7 +2315,7 @@ class MCSamples(Chains):
         try_t = 1e5
         x, y = 0, 0
         cust2DPlots = []
-        correlationMatrix = self.correlationMatrix
+        correlationMatrix = self.getCorrelationMatrix()
         for _ in range(num_plots):
             try_b = -1e5
             for ix1 in range(nparam):
-- 
2.43.0


From cec1bc8386ae8f3346a63c8bf40c482862a0efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:04 +0000
Subject: [PATCH 034/165] fix: BestFit results can be shown in a ResultTable

---
 python/getdist/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index c777e18..43e25ef 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -497,7 +497,7 @@ class BestFit(ParamResults):
         if setParamNameFile is not None:
             self.setLabelsFromParamNames(setParamNameFile)
 
-    def getColumnLabels(self, **kwargs):
+    def getColumnLabels(self, limit=None):
         return ['Best fit']
 
     def loadFromFile(self, filename, want_fixed=False):
@@ -565,7 +565,7 @@ class BestFit(ParamResults):
                 return val.chisq
         return None
 
-    def texValues(self, formatter, p, **kwargs):
+    def texValues(self, formatter, p, limit=None, refResults=None, **kwargs):
         param = self.parWithName(p.name)
         if param is not None:
             return [formatter.numberFormatter.formatNumber(param.best_fit)]
-- 
2.43.0


From e5950da709d437770c22893a74105f166066f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:04 +0000
Subject: [PATCH 035/165] fix: ResultTable uses the number formatter it is
 given

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 43e25ef..566921f 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -296,7 +296,7 @@ class ResultTable:
         if paramList is not None:
             self.tableParamNames = self.tableParamNames.filteredCopy(paramList)
         if numFormatter is not None:
-            self.format.numFormatter = numFormatter
+            self.format.numberFormatter = numFormatter
 
         self.results = results
         self.boldBaseParameters = True
-- 
2.43.0


From 0bbfa7731614c4343e1645d344ea842b735cdd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:04 +0000
Subject: [PATCH 036/165] fix: ResultTable accepts a single results instance as
 documented

---
 python/getdist/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 566921f..9c3cab6 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -283,6 +283,8 @@ class ResultTable:
         :param shiftSigma_subset: show parameter shifts in sigma assuming data are a subset of each other
         """
         # results is a margeStats or bestFit table
+        if isinstance(results, ParamList):
+            results = [results]
         self.lines = []
         if formatter is None:
             self.format = NoLineTableFormatter()
-- 
2.43.0


From 7f61ff4b6b8a44612b1aed22532bd7679f7d8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:04 +0000
Subject: [PATCH 037/165] fix: table row keeps its columns when a result lacks
 the parameter

---
 python/getdist/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 9c3cab6..e726813 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -379,7 +379,8 @@ class ResultTable:
             txt += self.format.textAsColumn(values[0], values[0] != self.format.noConstraint)
             return txt
         else:
-            return self.format.textAsColumn('') * len(result.getColumnLabels(self.limit))
+            return self.format.colSeparator.join(
+                [self.format.textAsColumn('')] * len(result.getColumnLabels(self.limit)))
 
     def paramLabelColumn(self, param):
         return self.format.textAsColumn(param.getLabel(), True, separator=True, bold=not param.isDerived)
-- 
2.43.0


From 1deb1c810475985506d213ed47fb830290c405ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:04 +0000
Subject: [PATCH 038/165] fix: limit percentages in table headers are not
 rounded to whole percent (99.7% was shown as 100%)

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index e726813..1e0c194 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -745,7 +745,7 @@ class MargeStats(ParamResults):
             par.isDerived = param.isDerived
 
     def limitText(self, limit):
-        txt = str(round(self.limits[limit - 1] * 100.))
+        txt = str(round(float(self.limits[limit - 1]) * 100, 1))
         if txt.endswith(".0"):  # e.g. 95.0 -> 95
             txt = txt.split(".")[0]
         return txt
-- 
2.43.0


From 43f6634e15ad4e54d3b626c614284480860f0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:04 +0000
Subject: [PATCH 039/165] fix: valid latex for parameter shifts in tables

---
 python/getdist/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 1e0c194..6d7af7e 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -812,13 +812,15 @@ class MargeStats(ParamResults):
                             # give mean shift in sigma units for subset data (regularized to max sigma/20)
                             subset_sigma = np.sqrt(abs(param.err ** 2 - refVal.err ** 2))
                             res += '%+.1f \\sigma_s' % (delta / max(subset_sigma, refVal.err / 20))
+                            if shiftSigma_indep:
+                                res += ', '
                         if shiftSigma_indep:
                             # give mean shift in sigma units for independent data
                             indep_sigma = np.sqrt(param.err ** 2 + refVal.err ** 2)
-                            res += ', %+.1f \\sigma_i' % (delta / indep_sigma)
+                            res += '%+.1f \\sigma_i' % (delta / indep_sigma)
                         res += ')'
                     else:
-                        res += r'\quad(%+.1f \\sigma)' % (delta / refVal.err)
+                        res += r'\quad(%+.1f \sigma)' % (delta / refVal.err)
             if self.hasBestFit:  # add best fit too
                 rangew = (lim.upper - lim.lower) / 10
                 bestfit, _, _, exponent = formatter.numberFormatter.namesigFigs(param.best_fit, rangew, -rangew,
-- 
2.43.0


From f94a4907a10009b1cd1e0f6fa95fde999945911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:04 +0000
Subject: [PATCH 040/165] fix: margestats files with an empty parameter label
 load (the limit type was taken as label)

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 6d7af7e..b1091a6 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -693,7 +693,7 @@ class MargeStats(ParamResults):
                 param.name = param.name[:-1]
             param.mean = float(items[1])
             param.err = float(items[2])
-            param.label = items[-1]
+            param.label = items[-1] if len(items) > len(self.limits) * 3 + 3 else ''
             param.limits = []
             for i in range(len(self.limits)):
                 param.limits.append(ParamLimit([float(s) for s in items[3 + i * 3:5 + i * 3]], items[5 + i * 3]))
-- 
2.43.0


From 62caba66a315b5d66101cb2ad1f4772204cda8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:04 +0000
Subject: [PATCH 041/165] fix: getParamBestFitDict(best_sample=True) respects
 want_derived and want_fixed

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index c096e9a..887025f 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2367,7 +2367,7 @@ class MCSamples(Chains):
         if best_sample:
             if not max_posterior:
                 raise ValueError('best_fit_sample is only maximum posterior')
-            return self.getParamSampleDict(np.argmin(self.loglikes))
+            return self.getParamSampleDict(np.argmin(self.loglikes), want_derived=want_derived, want_fixed=want_fixed)
         else:
             res = self.getBestFit(max_posterior=max_posterior).getParamDict(include_derived=want_derived)
         if want_fixed:
-- 
2.43.0


From 33616ed6c6bbc9942452092c2b557e3bc411f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:41 +0000
Subject: [PATCH 042/165] fix: samples with likelihoods could not be analysed
 with a single contour

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 887025f..e837f1a 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2034,7 +2034,7 @@ class MCSamples(Chains):
         # get N-dimensional confidence region
         indexes = self.loglikes.argsort()
         cumsum = np.cumsum(self.weights[indexes])
-        m.ND_cont1, m.ND_cont2 = np.maximum(1, np.searchsorted(cumsum, self.norm * self.contours[0:2]))
+        m.ND_cont1, m.ND_cont2 = np.maximum(1, np.searchsorted(cumsum, self.norm * np.resize(self.contours, 2)))
         for j, par in enumerate(self.paramNames.names):
             region1 = self.samples[indexes[:m.ND_cont1], j]
             region2 = self.samples[indexes[:m.ND_cont2], j]
-- 
2.43.0


From 40f1e8f101494df0ff24450e695ef7bbce4cf9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:41 +0000
Subject: [PATCH 043/165] fix: force_twotail setting had no effect on limits

---
 python/getdist/mcsamples.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index e837f1a..3a9ea2e 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2261,6 +2261,9 @@ class MCSamples(Chains):
                 tail_limit_bot, tail_limit_top, marge_limits_bot, marge_limits_top = density1D.getLimits(contour,
                                                                                                          interpGrid)
                 limfrac = 1 - contour
+                force_equal_tails = self.force_twotail and (marge_limits_bot or marge_limits_top)
+                if force_equal_tails:
+                    marge_limits_bot, marge_limits_top = False, False
 
                 if marge_limits_bot:
                     # fix to end of prior range
@@ -2281,8 +2284,9 @@ class MCSamples(Chains):
 
                 if not marge_limits_bot and not marge_limits_top:
                     # Two tail, check if limits are at very different density
-                    if (math.fabs(density1D.Prob(tail_confid_top) -
-                                  density1D.Prob(tail_confid_bot)) < self.credible_interval_threshold):
+                    if force_equal_tails or (math.fabs(
+                            density1D.Prob(tail_confid_top) -
+                            density1D.Prob(tail_confid_bot)) < self.credible_interval_threshold):
                         tail_limit_top = tail_confid_top
                         tail_limit_bot = tail_confid_bot
 
-- 
2.43.0


From 20c9d772ccb42dea12f7427af3a74fcc0244fbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:16 +0000
Subject: [PATCH 044/165] fix: total covariance of a Gaussian mixture

---
 python/getdist/gaussian_mixtures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 1c642f7..a51e870 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -43,8 +43,8 @@ class MixtureND:
         self.label = label
         self.total_mean = np.atleast_1d(np.dot(self.weights, self.means))
         self.total_cov = np.zeros((self.dim, self.dim))
-        for mean, cov, weight, totmean in zip(self.means, self.covs, self.weights, self.total_mean):
-            self.total_cov += weight * (cov + np.outer(mean - totmean, mean - totmean))
+        for mean, cov, weight in zip(self.means, self.covs, self.weights):
+            self.total_cov += weight * (cov + np.outer(mean - self.total_mean, mean - self.total_mean))
 
     def sim(self, size, random_state=None):
         """
-- 
2.43.0


From 9351e46a8a9ea9e20d842799cb3a4069e950879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:16 +0000
Subject: [PATCH 045/165] fix: lower limit of a Gaussian mixture was its upper
 limit

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index a51e870..f96028a 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -319,7 +319,7 @@ class MixtureND:
     def getLower(self, name):
         if self.lims is None:
             return None
-        return self.lims[self.names.index(name)][1]
+        return self.lims[self.names.index(name)][0]
 
 
 class Mixture2D(MixtureND):
-- 
2.43.0


From 9f48be4d6611d7afeb18a91bb68925f0effc831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:16 +0000
Subject: [PATCH 046/165] fix: component weights of conditional Gaussian
 mixtures

---
 python/getdist/gaussian_mixtures.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index f96028a..9838bdc 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -282,14 +282,9 @@ class MixtureND:
             deltas = np.asarray(fixed_param_values) - mean[fixed_params]
             new_cov = np.linalg.inv(invcov[np.ix_(keep_params, keep_params)])
             new_mean = mean[keep_params] - new_cov.dot(invcov[np.ix_(keep_params, fixed_params)].dot(deltas))
-            if len(self.weights) == 1 and False:
-                logw = 0
-            else:
-                logw = invcov[np.ix_(fixed_params, fixed_params)].dot(deltas).dot(deltas) \
-                       + np.log(np.linalg.det(cov[np.ix_(fixed_params, fixed_params)]
-                                              - cov[np.ix_(fixed_params, keep_params)]
-                                              .dot(np.linalg.inv(cov[np.ix_(keep_params, keep_params)])
-                                                   .dot(cov[np.ix_(keep_params, fixed_params)]))))
+            # new weight is proportional to old weight times the component's marginalized density at the fixed values
+            fixed_cov = cov[np.ix_(fixed_params, fixed_params)]
+            logw = np.linalg.solve(fixed_cov, deltas).dot(deltas) + np.log(np.linalg.det(fixed_cov)) - 2 * np.log(weight)
             new_weights.append(logw)
             new_means.append(new_mean)
             new_covs.append(new_cov)
-- 
2.43.0


From e81c705d61c66c3f14e485fec25a557950f539fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:16 +0000
Subject: [PATCH 047/165] fix: no_limit_marge option of mixture density1D had
 no effect

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 9838bdc..b1266b8 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -184,7 +184,7 @@ class MixtureND:
             self.checkNoLimits([index])
         mn, mx = self.autoRanges(sigma_max)[index]
         x = np.linspace(mn, mx, num_points)
-        like = self.pdf_marged(index, x)
+        like = self.pdf_marged(index, x, no_limit_marge)
         return Density1D(x, like)
 
     def density2D(self, params=None, num_points=1024, xmin=None, xmax=None, ymin=None, ymax=None, sigma_max=5):
-- 
2.43.0


From 124567d113cff3d1d2158df5c7a0b6c2d6937864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:16 +0000
Subject: [PATCH 048/165] fix: names option of mixture MCSamples had no effect

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index b1266b8..05cfae8 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -97,7 +97,7 @@ class MixtureND:
             loglikes = -np.log(self.pdf(samples))
         else:
             loglikes = None
-        return MCSamples(samples=samples, loglikes=loglikes, paramNamesFile=copy.deepcopy(self.paramNames),
+        return MCSamples(samples=samples, loglikes=loglikes, paramNamesFile=copy.deepcopy(self.paramNames) if names is None else None,
                          names=names, ranges=self.lims, **kwargs)
 
     def autoRanges(self, sigma_max=4, lims=None):
-- 
2.43.0


From 2d64989669429a506ff26a7727d0a9796cdd2789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:16 +0000
Subject: [PATCH 049/165] fix: log likelihoods of samples from a 1D mixture had
 the wrong shape

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 05cfae8..8b6cbe7 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -94,7 +94,7 @@ class MixtureND:
         """
         samples = self.sim(size, random_state=random_state)
         if logLikes:
-            loglikes = -np.log(self.pdf(samples))
+            loglikes = -np.log(self.pdf(samples)).reshape(-1)
         else:
             loglikes = None
         return MCSamples(samples=samples, loglikes=loglikes, paramNamesFile=copy.deepcopy(self.paramNames) if names is None else None,
-- 
2.43.0


From 5239a7c4f08d5ca09290911b9124b67637a36d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:50 +0000
Subject: [PATCH 050/165] fix: burn in was removed again from post-processed
 Cobaya chains that already had it removed

---
 python/getdist/cobaya_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 7cb5f02..0795c57 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -260,6 +260,6 @@ def get_sample_label(filename_or_info):
 
 
 def get_burn_removed(filename_or_info):
-    info = get_info_params(filename_or_info)
+    info = yaml_file_or_dict(filename_or_info)
     # if skip burn in *has already been done*
-    return info.get(_post, {}).get("skip", 0)
+    return (info.get(_post) or {}).get("skip", 0)
-- 
2.43.0


From a38d5e2e806fb00848b21a0782cfb2fa4b5234ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:50 +0000
Subject: [PATCH 051/165] fix: getting Cobaya parameter ranges changed the
 prior in the info, and failed for distributions with default location and
 scale

---
 python/getdist/cobaya_interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 0795c57..42a9a4c 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -161,6 +161,7 @@ def get_info_params(info):
 
 # noinspection PyUnboundLocalVariable
 def get_range(param_info):
+    param_info = expand_info_param(param_info)
     # Sampled
     if is_sampled_param(param_info):
         if isinstance(param_info[_prior], Sequence) and len(param_info[_prior]) == 2:
@@ -171,10 +172,10 @@ def get_range(param_info):
                 "Format of prior not recognised: %r. " % param_info[_prior] +
                 "Use '[min, max]' or a dictionary following Cobaya's documentation.")
         info_lims = dict((tag, param_info[_prior].get(tag))
-                         for tag in ["min", "max", "loc", "scale"])
+                         for tag in ["min", "max"])
         if info_lims["min"] is not None or info_lims["max"] is not None:
             lims = [param_info[_prior].get("min"), param_info[_prior].get("max")]
-        elif info_lims["loc"] is not None or info_lims["scale"] is not None:
+        else:
             dist = param_info[_prior].pop(_p_dist, "uniform")
             pdf_dist = getattr(import_module("scipy.stats", dist), dist)
             lims = pdf_dist.interval(1, **param_info[_prior])
-- 
2.43.0


From 7856b3e791842193c8114acfb093c2689db9c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:50 +0000
Subject: [PATCH 052/165] fix: reading Cobaya post-processing info changed the
 input info, and failed for parameters without properties

---
 python/getdist/cobaya_interface.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 42a9a4c..5636db2 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -142,9 +142,10 @@ def get_info_params(info):
     add = info.get(_post, {}).get("add", {})
     # Adding derived params and updating 1d priors
     for param, pinfo in add.get(_params, {}).items():
-        pinfo_old = info_params_full.get(param, {})
-        pinfo_old.update(pinfo)
-        info_params_full[param] = pinfo_old
+        pinfo_old = info_params_full.get(param)
+        if isinstance(pinfo_old, Mapping) and isinstance(pinfo, Mapping):
+            pinfo = {**pinfo_old, **pinfo}
+        info_params_full[param] = pinfo
     likes += list(add.get(_likelihood, []))
     priors += list(add.get(_prior, []))
     # Add the prior and the likelihood as derived parameters
-- 
2.43.0


From 949f0fcb044a40f9bcf0b311859b245ee4e43c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:50 +0000
Subject: [PATCH 053/165] fix: Cobaya derived parameters without properties
 made MCSamplesFromCobaya fail

---
 python/getdist/cobaya_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 5636db2..db75663 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -101,7 +101,7 @@ def MCSamplesFromCobaya(info, collections, name_tag=None,
     labels = [(info_params[p] or {}).get(_p_label, p) for p in columns[2:]]
     ranges = {p: get_range(info_params[p]) for p in
               info_params}  # include fixed parameters not in columns
-    renames = {p: info_params.get(p, {}).get(_p_renames, []) for p in columns[2:]}
+    renames = {p: (info_params[p] or {}).get(_p_renames, []) for p in columns[2:]}
     samples = [c[c.data.columns[2:]].values for c in collections]
     weights = [c[_weight].values for c in collections]
     loglikes = [c[_minuslogpost].values for c in collections]
-- 
2.43.0


From d5ffdc7866ae01e3931e3bdfcaa9e7a91d0fc064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:46 +0000
Subject: [PATCH 054/165] fix: Cobaya parameters given by a function object and
 not saved as derived made MCSamplesFromCobaya fail

---
 python/getdist/cobaya_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index db75663..bcbce6c 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -188,7 +188,7 @@ def get_range(param_info):
         value = fixed_value(param_info)
         try:
             value = float(value)
-        except ValueError:
+        except (TypeError, ValueError):
             # e.g. lambda function values
             lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(
                 param_info or {})
-- 
2.43.0


From ab3f8fe61b62cddebc2715b9994c6e1f9ace5623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:21 +0000
Subject: [PATCH 055/165] fix: best-fit files with parameters without label
 could not be read

---
 python/getdist/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index b1091a6..4821533 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -549,7 +549,8 @@ class BestFit(ParamResults):
                 param = ParamInfo()
                 param.isFixed = isFixed
                 param.isDerived = isDerived
-                (param.number, param.best_fit, param.name, param.label) = [s.strip() for s in line.split(None, 3)]
+                (param.number, param.best_fit, param.name, param.label) = \
+                    ([s.strip() for s in line.split(None, 3)] + [''])[:4]
                 param.number = int(param.number)
                 param.best_fit = float(param.best_fit)
                 self.names.append(param)
-- 
2.43.0


From 44fc7130107c5ad8514c697c8ec5a25bc4fed0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:21 +0000
Subject: [PATCH 056/165] fix: chain index given to chainPeek was ignored

---
 python/chainPeek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/chainPeek.py b/python/chainPeek.py
index 86641f8..b96ece2 100644
--- a/python/chainPeek.py
+++ b/python/chainPeek.py
@@ -15,7 +15,7 @@ if len(sys.argv) < 3:
 chain = os.path.abspath(sys.argv[1])
 param = sys.argv[2]
 index = 1
-if len(sys.argv) > 4: index = int(sys.argv[3])
+if len(sys.argv) > 3: index = int(sys.argv[3])
 
 d = np.loadtxt(chain + '_' + str(index) + '.txt')
 names = paramnames.ParamNames(chain + '.paramnames')
-- 
2.43.0


From 8a20cdc8f436d4c948e13062560b71e1dee0b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:21 +0000
Subject: [PATCH 057/165] fix: chains were not found in directories given by
 relative path

---
 python/getdist/chain_grid.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index cba5cd1..72d5cd4 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -21,9 +21,7 @@ def get_chain_root_files(rootdir):
     ending = 'updated.yaml'
     pattern = os.path.join(rootdir, "*" + ending)
     files += [f[:-len(ending)].rstrip("_.") for f in glob.glob(pattern)]
-    files = [f for f in files if hasChainFiles(os.path.join(rootdir, f))]
-    files.sort()
-    return files
+    return sorted(f for f in files if hasChainFiles(f))
 
 
 def is_grid_object(obj):
-- 
2.43.0


From ea378b44e38b2c101ac958c5aadf6fbfa919c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:21 +0000
Subject: [PATCH 058/165] fix: chains with both .paramnames and updated.yaml
 were listed twice (and made ChainDirGrid fail)

---
 python/getdist/chain_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index 72d5cd4..3c3867c 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -21,7 +21,7 @@ def get_chain_root_files(rootdir):
     ending = 'updated.yaml'
     pattern = os.path.join(rootdir, "*" + ending)
     files += [f[:-len(ending)].rstrip("_.") for f in glob.glob(pattern)]
-    return sorted(f for f in files if hasChainFiles(f))
+    return sorted(f for f in set(files) if hasChainFiles(f))
 
 
 def is_grid_object(obj):
-- 
2.43.0


From 980a95c3d9455812a8f7acae8028c1252fcef948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:21 +0000
Subject: [PATCH 059/165] fix: chains were lost from a directory grid if three
 or more had the same name

---
 python/getdist/chain_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index 3c3867c..702023e 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -98,7 +98,7 @@ class ChainDirGrid:
             if len(self.roots[root]) > 1:
                 paths = [item.chainRoot.split(os.sep) for item in self.roots[root]]
                 i = -2
-                while all(s[i] == paths[0][i] for s in paths[1:]):
+                while len(set(tuple(s[i:]) for s in paths)) < len(paths):
                     i -= 1
                 for parts, item in zip(paths, self.roots[root]):
                     item.name = '/'.join(parts[i:])
-- 
2.43.0


From 0b86f61383663eb6922d0e4069c3614f1be2fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:07 +0000
Subject: [PATCH 060/165] fix: looking for a chain in a missing subdirectory
 failed instead of not finding it

---
 python/getdist/chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 3d06cc7..a0ba2d2 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -110,6 +110,8 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
 
 
 def hasChainFiles(file_root, ext='.txt'):
+    if not os.path.isdir(os.path.dirname(file_root) or '.'):
+        return False
     return any(chainFiles(file_root, ext=ext, separator=sep, last_chain=1) for sep in ['_', '.'])
 
 
-- 
2.43.0


From 009529cb6766273e257d37897301aeb780a3b9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:07 +0000
Subject: [PATCH 061/165] fix: samples loaded again or from another file by a
 plotter for a root name left cached densities and single samples of the
 previous ones

---
 python/getdist/plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 60b0ec0..9dec1d6 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -524,7 +524,9 @@ class MCSampleAnalysis(_BaseObject):
             dist_settings.update(self.ini.params)
             if settings:
                 dist_settings.update(settings)
-        self.mcsamples[root] = loadMCSamples(file_root, self.ini, job_item, settings=dist_settings)
+        samples = loadMCSamples(file_root, self.ini, job_item, settings=dist_settings)
+        self.remove_root(root)
+        self.mcsamples[root] = samples
         return self.mcsamples[root]
 
     def add_roots(self, roots):
-- 
2.43.0


From 4834525028dc7c737250aa795639b485b9fcf6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:07 +0000
Subject: [PATCH 062/165] fix: adding a root file with the name of one already
 loaded from another path returned the other samples

---
 python/getdist/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 9dec1d6..2096b3b 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -487,7 +487,8 @@ class MCSampleAnalysis(_BaseObject):
             raise GetDistPlotError('MixtureND is a distribution not a set of samples')
         elif not isinstance(root, str):
             raise GetDistPlotError('Root names must be strings (or MCSamples instances)')
-        if root in self.mcsamples and cache:
+        if root in self.mcsamples and cache and \
+                (not file_root or os.path.abspath(file_root) == os.path.abspath(self.mcsamples[root].root)):
             return self.mcsamples[root]
         if os.path.isabs(root):
             file_root = root
-- 
2.43.0


From 92460bcda39703b9a4eace0f5bb2031088ae65e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:07 +0000
Subject: [PATCH 063/165] fix: getdist.ini of a directory that does not have
 the chain was used for chains found in later directories

---
 python/getdist/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 2096b3b..54f7f28 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -513,10 +513,10 @@ class MCSampleAnalysis(_BaseObject):
                         break
                 else:
                     file_root = findChainFileRoot(chain_dir, root)
-                    dir_ini = os.path.join(chain_dir, 'getdist.ini')
-                    if os.path.exists(dir_ini):
-                        dist_settings.update(IniFile(dir_ini).params)
                     if file_root:
+                        dir_ini = os.path.join(chain_dir, 'getdist.ini')
+                        if os.path.exists(dir_ini):
+                            dist_settings.update(IniFile(dir_ini).params)
                         break
 
         if not file_root:
-- 
2.43.0


From bffddfd130b5bf2e447ee0d7abc68fd3bc142443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:49 +0000
Subject: [PATCH 064/165] fix: last auto-correlation of parameters without
 label was lost when reading convergence files

---
 python/getdist/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 4821533..ee374d3 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -907,7 +907,8 @@ class ConvergeStats(ParamResults):
                             break
                         items = line.split(None, len(self.auto_correlation_steps) + 1)
                         self.auto_correlation_pars.append(items[0])
-                        self.auto_correlations.append([float(s) for s in items[1:-1]])
+                        self.auto_correlations.append(
+                            [float(s) for s in items[1:len(self.auto_correlation_steps) + 1]])
         except:
             print('Error reading: ' + filename)
             raise
-- 
2.43.0


From fc739b380e6c3094db157ffe3b22e010a5c39abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:08 +0000
Subject: [PATCH 065/165] fix: convergence files without auto-correlations (too
 few samples) could not be read

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index ee374d3..3791c5f 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -898,7 +898,7 @@ class ConvergeStats(ParamResults):
                             self.R_eigs.append(line.split()[1])
                         except Exception:
                             self.R_eigs.append('1e30')
-                elif 'Parameter auto-correlations' in textFileLines[i]:
+                elif 'Parameter auto-correlations' in textFileLines[i] and i + 2 < len(textFileLines):
                     self.auto_correlation_steps = [int(s) for s in textFileLines[i + 2].split()]
                     self.auto_correlations = []
                     self.auto_correlation_pars = []
-- 
2.43.0


From 7cfa92d8fa1f68def7c410d1ea24ca8f0f90a950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:38 +0000
Subject: [PATCH 066/165] fix: job groups created with a list of data sets had
 no name, parameters or data sets

---
 python/paramgrid/batchjob.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index d36129f..b312af7 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -181,10 +181,10 @@ class jobGroup(object):
             params = [[]]
         if datasets is None:
             datasets = []
-            self.params = params
-            self.groupName = name
-            self.importanceRuns = importanceRuns
-            self.datasets = datasets
+        self.params = params
+        self.groupName = name
+        self.importanceRuns = importanceRuns
+        self.datasets = datasets
         self.extra_options = {}
 
 
-- 
2.43.0


From 42dac347e59dee041072c0302fda66b6bf6cd5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:38 +0000
Subject: [PATCH 067/165] fix: names of a given number of chains of a grid job
 were those of chains 0 to n-1

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index b312af7..88da410 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -336,7 +336,7 @@ class jobItem(propertiesItem):
 
     def chainNames(self, num_chains=None):
         if num_chains:
-            return [self.chainName(i) for i in range(num_chains)]
+            return [self.chainName(i) for i in range(1, num_chains + 1)]
         else:
             i = 1
             chains = []
-- 
2.43.0


From 6c6d9e49dc52daa4dbd287776aae526aba90fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:38 +0000
Subject: [PATCH 068/165] fix: data sets changed the name, parameter and
 getdist setting lists they were made from

---
 python/paramgrid/batchjob.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 88da410..0accdf6 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -85,9 +85,8 @@ class propertiesItem(object):
 
 class dataSet(object):
     def __init__(self, names, params=None, covmat=None, dist_settings=None):
-        if not dist_settings:
-            dist_settings = {}
         if isinstance(names, six.string_types): names = [names]
+        names = list(names)
         if params is None:
             params = [(name + '.ini') for name in names]
         else:
@@ -96,7 +95,7 @@ class dataSet(object):
         self.names = names
         self.params = params  # can be an array of items, either ini file name or dictionaries of parameters
         self.tag = "_".join(self.names)
-        self.dist_settings = dist_settings
+        self.dist_settings = dict(dist_settings or {})
 
     def add(self, name, params=None, overrideExisting=True, dist_settings=None):
         if params is None: params = [name]
@@ -133,6 +132,7 @@ class dataSet(object):
 
     def standardizeParams(self, params):
         if isinstance(params, dict) or isinstance(params, six.string_types): params = [params]
+        params = list(params)
         for i in range(len(params)):
             if isinstance(params[i], six.string_types) and not '.ini' in params[i]: params[i] += '.ini'
         return params
@@ -260,7 +260,7 @@ class jobItem(propertiesItem):
             data = self.data_set.extendForImportance(impRun.names, impRun.inis)
             job = jobItem(self.batchPath, self.param_set, data, minimize=impRun.want_minimize)
             job.importanceTag = "_".join(impRun.names)
-            job.importanceSettings = impRun.inis
+            job.importanceSettings = data.importanceParams
             if not '_post_' in self.name:
                 tag = '_post_' + job.importanceTag
             else:
-- 
2.43.0


From ff8152d554454ce4b03605f15a2c91c4c822ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:38 +0000
Subject: [PATCH 069/165] fix: importance sampling jobs did not keep the base
 name of the job they sample from

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 0accdf6..19dc738 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -258,7 +258,7 @@ class jobItem(propertiesItem):
                 print('importance job duplicating parent data set: %s with %s' % (self.name, impRun.names))
                 continue
             data = self.data_set.extendForImportance(impRun.names, impRun.inis)
-            job = jobItem(self.batchPath, self.param_set, data, minimize=impRun.want_minimize)
+            job = jobItem(self.batchPath, self.param_set, data, base=self.base, minimize=impRun.want_minimize)
             job.importanceTag = "_".join(impRun.names)
             job.importanceSettings = data.importanceParams
             if not '_post_' in self.name:
-- 
2.43.0


From c8e9026e45962650d4d7954de4cf25397579d2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:38 +0000
Subject: [PATCH 070/165] fix: script to plot chains of grids failed with
 current plotters and option names

---
 python/makePlots.py               | 4 ++--
 python/paramgrid/batchjob_args.py | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index ca5688b..5e45c13 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -44,7 +44,7 @@ def doplot(roots):
     elif args.tri_params is not None:
         g.triangle_plot(roots, args.tri_params, legend_labels=args.legend_labels, filled_compare=args.filled)
     else:
-        g.plots_1d(roots, paramList=args.paramList, nx=args.nx, legend_labels=args.legend_labels, legend_ncol=ncol)
+        g.plots_1d(roots, param_list=args.param_list, nx=args.nx, legend_labels=args.legend_labels, legend_ncol=ncol)
 
 
 def comparePlot(jobItems):
@@ -66,7 +66,7 @@ if args.compare_replacing is not None:
 items = Opts.sortedParamtagDict()
 
 for paramtag, parambatch in items:
-    g.newPlot()
+    g.new_plot()
     if args.compare_replacing is not None:
         print('comparing changes in data for: ' + paramtag)
         origCompare = [item for item in parambatch if args.compare_replacing[0] in item.data_set.names]
diff --git a/python/paramgrid/batchjob_args.py b/python/paramgrid/batchjob_args.py
index 6e15be5..875fbcf 100644
--- a/python/paramgrid/batchjob_args.py
+++ b/python/paramgrid/batchjob_args.py
@@ -72,7 +72,7 @@ class batchArgs(object):
             self.parser.add_argument('--param_list', default=None,
                                      help=".paramnames file listing specific parameters to include (only)")
             self.parser.add_argument('--size_inch', type=float, default=None, help='output subplot size in inches')
-            self.parser.add_argument('--nx', default=None, help='number of plots per row')
+            self.parser.add_argument('--nx', type=int, default=None, help='number of plots per row')
             self.parser.add_argument('--outputs', nargs='+', default=['pdf'], help='output file type (default: pdf)')
 
         args = self.parser.parse_args(vals)
@@ -83,11 +83,9 @@ class batchArgs(object):
                 raise Exception('batchPath %s does not exist or is not initialized with makeGrid.py' % args.batchPath)
             if self.doplots:
                 import getdist.plots as plots
-                from getdist import paramnames
 
-                if args.paramList is not None: args.paramList = paramnames.ParamNames(args.paramList)
                 g = plots.GetDistPlotter(chain_dir=self.batch.batchPath)
-                if args.size_inch is not None: g.settings.setWithSubplotSize(args.size_inch)
+                if args.size_inch is not None: g.settings.set_with_subplot_size(args.size_inch)
                 return self.batch, self.args, g
             else:
                 return self.batch, self.args
-- 
2.43.0


From 2b78c831499964a26c2be3e5c959ade70357aa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:03 +0000
Subject: [PATCH 071/165] fix: reading a grid used the settings of another grid
 read before if their setting files have the same name

---
 python/paramgrid/gridconfig.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/paramgrid/gridconfig.py b/python/paramgrid/gridconfig.py
index a76490b..0af8d95 100644
--- a/python/paramgrid/gridconfig.py
+++ b/python/paramgrid/gridconfig.py
@@ -84,7 +84,12 @@ def makeGrid(batchPath, settingName=None, settings=None, readOnly=False, interac
             readOnly = True
             sys.path.insert(0, batchPath + 'config')
             sys.modules['batchJob'] = batchjob  # old name
-            settings = __import__(IniFile(batchPath + 'config/config.ini').params['setting_file'].replace('.py', ''))
+            module = IniFile(batchPath + 'config/config.ini').params['setting_file'].replace('.py', '')
+            loaded = getattr(sys.modules.get(module), '__file__', None)
+            if loaded and os.path.dirname(os.path.abspath(loaded)) != os.path.abspath(batchPath + 'config'):
+                # settings of the same name from another grid
+                del sys.modules[module]
+            settings = __import__(module)
         else:
             settings = __import__(settingName, fromlist=['dummy'])
 
-- 
2.43.0


From 674971532d302ec6c302ef9983adc77db3783d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:44 +0000
Subject: [PATCH 072/165] fix: grids could not be made or read when the cache
 directory did not exist yet

---
 python/paramgrid/batchjob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 19dc738..147a30c 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -14,9 +14,10 @@ from getdist.mcsamples import loadMCSamples
 
 def grid_cache_file(directory):
     directory = os.path.abspath(directory)
-    if getdist.cache_dir:
+    cache_dir = getdist.make_cache_dir()
+    if cache_dir:
         import hashlib
-        return os.path.join(getdist.cache_dir, '_batch_'
+        return os.path.join(cache_dir, '_batch_'
                             + hashlib.md5(directory.encode('utf-8')).hexdigest()[:10]) + '.pyobj'
     return os.path.join(directory, 'batch.pyobj')
 
-- 
2.43.0


From c7b9d2541c27aeda6b110bde7aa61002be60881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 073/165] fix: job ids and queue listings were byte string
 representations, so that jobs in the queue were never recognized

---
 python/paramgrid/jobqueue.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 6d316be..32e26d1 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -72,7 +72,7 @@ class jobSettings(object):
             grid_engine = 'MOAB'
         else:
             try:
-                help_info = str(subprocess.check_output('qstat -help', shell=True)).strip()
+                help_info = str(subprocess.check_output('qstat -help', shell=True, universal_newlines=True)).strip()
                 if 'OGS/GE' in help_info: grid_engine = 'OGS'  # Open Grid Scheduler, as on StarCluster
             except:
                 pass
@@ -307,7 +307,8 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
         if len(paramFiles) > 1:
             open(scriptRoot + '.batch', 'w').write("\n".join(paramFiles))
         if not kwargs.get('no_sub', False):
-            res = str(subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True)).strip()
+            res = subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True,
+                                          universal_newlines=True).strip()
             if not res:
                 print('No qsub output')
             else:
@@ -330,11 +331,11 @@ def queue_job_details(batchPath=None, running=True, queued=True, warnNotBatch=Tr
         print('No existing job index found')
         return []
     if spawn.find_executable("showq") is not None:
-        res = str(subprocess.check_output('showq -U $USER', shell=True)).strip()
+        res = subprocess.check_output('showq -U $USER', shell=True, universal_newlines=True).strip()
         runningTxt = ' Running '
     else:
         # e.g. Sun Grid Engine/OGS
-        res = str(subprocess.check_output('qstat -u $USER', shell=True)).strip()
+        res = subprocess.check_output('qstat -u $USER', shell=True, universal_newlines=True).strip()
         runningTxt = ' r '
     res = res.split("\n")
     names = []
-- 
2.43.0


From ade2344f549064fa19d5ed00e7adfbba21406e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 074/165] fix: deleting a job from the index removed entries of
 a later job with the same names, whose deletion then failed

---
 python/paramgrid/jobqueue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 32e26d1..8481134 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -151,9 +151,9 @@ class jobIndex(object):
             j = self.jobSettings.get(jobId)
             if j is not None:
                 for rootname in j.names:
-                    del (self.rootNames[rootname])
+                    if self.rootNames.get(rootname) == jobId: del (self.rootNames[rootname])
                 del (self.jobSettings[jobId])
-                del (self.jobNames[j.jobName])
+                if self.jobNames.get(j.jobName) == jobId: del (self.jobNames[j.jobName])
                 self.jobSequence = [s for s in self.jobSequence if s != jobId]
 
 
-- 
2.43.0


From 74813cc43b51c44dfa9518f69582cf7b890b957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 075/165] fix: job index was lost if interrupted while being
 replaced

---
 python/paramgrid/jobqueue.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 8481134..3866d4d 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -6,7 +6,6 @@ import numpy as np
 import re
 import pickle
 import time
-import shutil
 import multiprocessing
 
 from distutils import spawn
@@ -174,8 +173,7 @@ def saveJobIndex(obj, batchPath=None):
     with open(fname + '_tmp', 'wb') as output:
         pickle.dump(obj, output, pickle.HIGHEST_PROTOCOL)
     # try to prevent corruption from error mid-write
-    if os.path.exists(fname): os.remove(fname)
-    shutil.move(fname + '_tmp', fname)
+    os.replace(fname + '_tmp', fname)
 
 
 def addJobIndex(batchPath, j):
-- 
2.43.0


From d17928e4744856199ae358c84cec19c7826456af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 076/165] fix: alternative environment variables for job
 settings were not used

---
 python/paramgrid/jobqueue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 3866d4d..65f2e45 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -53,7 +53,7 @@ def getDefaulted(key_name, default=None, tp=str, template=None, ext_env=None, **
     if val is None and template is not None:
         val = extractValue(template, 'DEFAULT_' + key_name)
     if val is None: val = os.environ.get('COSMOMC_' + key_name, None)
-    if val is None and ext_env: val = os.environ.get('ext_env', None)
+    if val is None and ext_env: val = os.environ.get(ext_env, None)
     if val is None: val = default
     if val is None: return None
     return tp(val)
-- 
2.43.0


From 9f527b129c7fe64abf978199e92a6d55c4f91172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 077/165] fix: selecting queued or running jobs only was
 ignored when deleting jobs, and an id range deleted all jobs of the grid

---
 python/deleteJobs.py         | 11 +++++------
 python/paramgrid/jobqueue.py |  2 ++
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/deleteJobs.py b/python/deleteJobs.py
index 4629ade..1ec37e6 100644
--- a/python/deleteJobs.py
+++ b/python/deleteJobs.py
@@ -18,16 +18,15 @@ Opts.parser.add_argument('--confirm', action='store_true')
 
 
 if batch:
-    if args.delete_id_range is not None:
-        jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, confirm=args.confirm)
-    if args.delete_id_min is not None:
-        jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm)
+    state = dict(confirm=args.confirm, running=args.running, queued=args.queued)
+    if args.delete_id_range is not None or args.delete_id_min is not None:
+        jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, jobId_min=args.delete_id_min, **state)
     elif args.delete_ids is not None:
-        jobqueue.deleteJobs(args.batchPath, args.delete_ids, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, args.delete_ids, **state)
     else:
         items = [jobItem for jobItem in Opts.filteredBatchItems()]
         batchNames = set([jobItem.name for jobItem in items] + [jobItem.name + '_minimize' for jobItem in items])
-        jobqueue.deleteJobs(args.batchPath, rootNames=batchNames, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, rootNames=batchNames, **state)
 
     if not args.confirm: print('jobs not actually deleted: add --confirm to really cancel them')
 
diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 65f2e45..b9ce57c 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -240,6 +240,8 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
                     else:
                         qdel = 'qdel'
                     subprocess.check_output(qdel + ' ' + str(jobId), shell=True)
+                elif running or queued:
+                    continue  # not in the requested state
                 index.delId(jobId)
             elif jobId in validIds:
                 print('...', j.jobName, jobId)
-- 
2.43.0


From ea0ce32f56b1c7b7895922124739a59c637b5762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 078/165] fix: jobs could not be deleted by number

---
 python/paramgrid/jobqueue.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index b9ce57c..ce515fd 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -217,7 +217,9 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
         for name in jobNames:
             jobId = index.jobNames.get(name)
             if not jobId in jobIds: jobIds.append(jobId)
-    if jobId_minmax is not None or jobId_min is not None:
+    numbers = [jobId for jobId in jobIds if isinstance(jobId, six.integer_types)]
+    jobIds = [jobId for jobId in jobIds if not isinstance(jobId, six.integer_types)]
+    if jobId_minmax is not None or jobId_min is not None or numbers:
         for jobIdStr, j in list(index.jobSettings.items()):
             parts = jobIdStr.split('.')
             if len(parts) == 1 or parts[0].isdigit():
@@ -225,7 +227,7 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
             else:
                 jobId = int(parts[1])
             if (jobId_minmax is not None and (jobId_minmax[0] <= jobId <= jobId_minmax[1]) or
-                jobId_min is not None and jobId >= jobId_min) and not jobIdStr in jobIds:
+                jobId_min is not None and jobId >= jobId_min or jobId in numbers) and not jobIdStr in jobIds:
                 jobIds.append(jobIdStr)
 
     validIds = queue_job_details(batchPath, running=not queued, queued=not running)[0]
-- 
2.43.0


From 947031ab56aafc02fb1c7107e25b138d3b0880c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 079/165] fix: combining several runs with long names into one
 job failed

---
 python/runbatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index 6b2213d..effe07f 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -74,7 +74,7 @@ def jobName():
     if len(iniFiles) < 2 or len(s) < 70: return s
     base = os.path.basename(iniFiles[0])
     if len(base) > 70: base = base[:70]
-    return base + '__' + hashlib.md5(s).hexdigest()[:16]
+    return base + '__' + hashlib.md5(s.encode('utf-8')).hexdigest()[:16]
 
 
 def submitJob(ini):
-- 
2.43.0


From 527c131356d3dc5dc3410e172a89eec907f9d274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:59 +0000
Subject: [PATCH 080/165] fix: queued minimizations of importance sampling runs
 were not recognized when submitting

---
 python/runbatch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index effe07f..429bd7e 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -37,8 +37,7 @@ if args.not_queued:
 
 
 def notQueued(name):
-    if args.minimize: name += '_minimize'
-    return not name in queued
+    return not name + variant in queued
 
 
 variant = ''
-- 
2.43.0


From e53cc5d875b3564bb3a253296197e5828a3a143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:21 +0000
Subject: [PATCH 081/165] fix: listing running jobs without giving a grid never
 listed any

---
 python/runningJobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runningJobs.py b/python/runningJobs.py
index d7d6709..de15488 100644
--- a/python/runningJobs.py
+++ b/python/runningJobs.py
@@ -21,7 +21,7 @@ else:
 ids, jobNames, nameslist, infos = jobqueue.queue_job_details(args.batchPath, running=not args.queued,
                                                              queued=not args.running)
 for jobId, jobName, names, info in zip(ids, jobNames, nameslist, infos):
-    if batchNames.intersection(set(names)):
+    if not batch or batchNames.intersection(set(names)):
         stats = dict()
         if batch:
             for name in names:
-- 
2.43.0


From 66534eaec9640c1178dcec4b07a7ed7263045ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 082/165] fix: cleaning up a chain also deleted the files of
 importance sampling runs from it that were not selected

---
 python/cleanup.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/cleanup.py b/python/cleanup.py
index d5af6a4..c10f544 100644
--- a/python/cleanup.py
+++ b/python/cleanup.py
@@ -29,7 +29,12 @@ if args.chainnum is not None:
     args.ext = ['_' + args.chainnum + '.' + ext for ext in args.ext]
 else: args.ext = ['.' + ext for ext in args.ext] + ['_*.' + ext for ext in args.ext]
 
+names = [item.name for item in batch.items(wantImportance=True)]
+
 for jobItem in Opts.filteredBatchItems():
+    # files of importance sampling jobs are in the same directory
+    others = [name for name in names if name.startswith(jobItem.name + '_')]
+    if not jobItem.isImportanceJob: others.append(jobItem.name + '_post')
     if (args.converge == 0 or not jobItem.hasConvergeBetterThan(args.converge, returnNotExist=True)) and os.path.exists(jobItem.chainPath):
         dirs = [jobItem.chainPath]
         if args.dist: dirs = []
@@ -37,6 +42,7 @@ for jobItem in Opts.filteredBatchItems():
         for adir in dirs:
             files = sorted(os.listdir(adir))
             for f in files:
+                if any(f.startswith((name + '.', name + '_')) for name in others): continue
                 for ext in args.ext:
                     if fnmatch.fnmatch(f, jobItem.name + ext):
                         fname = adir + f
-- 
2.43.0


From fc67795f948ea62385c684dc28ab54f25a9fa828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 083/165] fix: copying grids to a directory failed if python
 had cached the settings module

---
 python/copyGridFiles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 909466d..af17418 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -103,6 +103,7 @@ if not args.no_config:
     config_path = os.path.join(batch.batchPath, 'config/')
     if not args.dryrun and not args.zip: batchjob.makePath(target_dir + 'config')
     for f in os.listdir(config_path):
+        if os.path.isdir(config_path + f): continue
         doCopy(config_path, 'config/', f)
 
 for jobItem in Opts.filteredBatchItems():
-- 
2.43.0


From 1f93086cb030b6d43466bdfd912ed1b5eab751fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 084/165] fix: dry run of copying a grid to a zip file replaced
 an existing file by an empty one

---
 python/copyGridFiles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index af17418..1a06ae0 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -40,7 +40,9 @@ if args.max_age_days:
 sizeMB = 0
 
 if args.zip:
-    zipper = zipfile.ZipFile(args.target_dir, 'w', compression=zipfile.ZIP_DEFLATED, allowZip64=True)
+    zipper = None
+    if not args.dryrun:
+        zipper = zipfile.ZipFile(args.target_dir, 'w', compression=zipfile.ZIP_DEFLATED, allowZip64=True)
     target_dir = None
 else:
     zipper = None
-- 
2.43.0


From 742b7f3aa9738268470dabb233080384ce2b8a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 085/165] fix: extracted files with normalized names overwrote
 each other if they differ before the extension

---
 python/extractDistFiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/extractDistFiles.py b/python/extractDistFiles.py
index 3c54c6a..4b67c17 100644
--- a/python/extractDistFiles.py
+++ b/python/extractDistFiles.py
@@ -34,7 +34,7 @@ for ext in args.file_extension:
                 if fnmatch.fnmatch(f, jobItem.name + pattern):
                     print(jobItem.distPath + f)
                     if args.normalize_names:
-                        fout = jobItem.makeNormedName(replacements)[0] + os.path.splitext(f)[1]
+                        fout = jobItem.makeNormedName(replacements)[0] + f[len(jobItem.name):]
                     else:
                         fout = f
                     shutil.copyfile(jobItem.distPath + f, target_dir + fout)
-- 
2.43.0


From df4c2ec6dbf853f8cb7d86ce5a5d46f6a317dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 086/165] fix: renaming parameters in best-fit files failed,
 merged long new names with the label and did not find new labels of renamed
 parameters

---
 python/renameParam.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/renameParam.py b/python/renameParam.py
index 6214da6..a13d14d 100644
--- a/python/renameParam.py
+++ b/python/renameParam.py
@@ -71,13 +71,15 @@ for jobItem in Opts.filteredBatchItems():
                 if new:
                     newname, lab = new
                     items[5] = newname
-                    items[6] = ' ' * (len(items[6]) + len(name) - len(newname))
+                    items[6] = ' ' * max(1, len(items[6]) + len(name) - len(newname))
                     has = has or newname != name
+                    name = newname
                 if labels:
                     plab = labels.parWithName(name)
                     if plab: lab = plab.label
                 if lab is not None:
-                    if len(items) < 7:
+                    if len(items) < 8:
+                        items[6] = items[6] or ' '
                         items.append(lab)
                         has = True
                     else:
@@ -87,7 +89,7 @@ for jobItem in Opts.filteredBatchItems():
                 lines[i] = "".join(items) + "\n"
             if has:
                 print(bestfit)
-                if args.confirm: open(bestfit).write("".join(lines))
+                if args.confirm: open(bestfit, 'w').write("".join(lines))
 
 if args.confirm:
     print('Done. Re-run getdist to update getdist outputs.')
-- 
2.43.0


From a51157b988f805e0ed8d25d6792b0dbaa3a8ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 087/165] fix: option to list only grid jobs that do not exist
 was ignored

---
 python/listGrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/listGrid.py b/python/listGrid.py
index 34ea87f..1c14d5a 100644
--- a/python/listGrid.py
+++ b/python/listGrid.py
@@ -12,6 +12,7 @@ items = Opts.sortedParamtagDict(chainExist=args.exists)
 
 for paramtag, parambatch in items:
     for jobItem in parambatch:
+        if args.notexist and jobItem.chainExists(): continue
         if hasattr(jobItem, 'group'):
             tag = '(%s)' % jobItem.group
         else:
-- 
2.43.0


From fe2065365d043d53c031e092a65c526ab9ed6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 088/165] fix: comparing parameters could not write latex to a
 file in the current or a new directory

---
 python/makeParamCompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/makeParamCompare.py b/python/makeParamCompare.py
index b33e8c1..db463b3 100644
--- a/python/makeParamCompare.py
+++ b/python/makeParamCompare.py
@@ -93,5 +93,5 @@ for i, par in enumerate(args.params):
 if args.latex_filename is not None:
     if args.latex_filename.find('.') < 0: args.latex_filename += '.tex'
     (outdir, outname) = os.path.split(args.latex_filename)
-    if not os.path.exists(outdir): os.makedirs(os.path.dirname(outdir))
+    if outdir and not os.path.exists(outdir): os.makedirs(outdir)
     types.TextFile(lines).write(args.latex_filename)
-- 
2.43.0


From 7e3def6b728d17be9253f583909ef4d2d15cbda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 089/165] fix: tables for all limits were written in nested
 directories for relative names, and the number of columns could not be set

---
 python/makeTables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/makeTables.py b/python/makeTables.py
index 8ca38e1..93e74f4 100644
--- a/python/makeTables.py
+++ b/python/makeTables.py
@@ -45,7 +45,7 @@ Opts.parser.add_argument('--paramNameFile', default='clik_latex.paramnames',
 Opts.parser.add_argument('--paramList', default=None,
                          help=".paramnames file listing specific parameters to include (only)")
 Opts.parser.add_argument('--blockEndParams', default=None)
-Opts.parser.add_argument('--columns', type=int, nargs=1, default=3)
+Opts.parser.add_argument('--columns', type=int, default=3)
 Opts.parser.add_argument('--compare', nargs='+', default=None)
 
 Opts.parser.add_argument('--titles', default=None)  # for compare plots
@@ -202,6 +202,7 @@ for paramtag, parambatch in items:
             referenceJobItem.loadJobItemResults(paramNameFile=args.paramNameFile)
             baseJobItems[jobItem.normed_data] = referenceJobItem
 
+args.latex_filename = os.path.abspath(args.latex_filename)
 loc = os.path.split(args.latex_filename)[0]
 if loc: batchjob.makePath(loc)
 
-- 
2.43.0


From c30bc16a52199d66ae9e75144f5638c9068130b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:52 +0000
Subject: [PATCH 090/165] fix: getdist command removed burn in given as number
 of rows twice and ignored burn in settings of the chain properties

---
 python/getdist/command_line.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index df61b80..f190dea 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -67,9 +67,7 @@ def getdist_script(args, exit_on_error=True):
     rootname = os.path.basename(in_root)
 
     if args.ignore_rows is not None:
-        ignorerows = args.ignore_rows
-    else:
-        ignorerows = ini.float('ignore_rows', 0.0)
+        ini.params['ignore_rows'] = args.ignore_rows
 
     samples_are_chains = ini.bool('samples_are_chains', True)
 
@@ -77,6 +75,9 @@ def getdist_script(args, exit_on_error=True):
 
     # Create instance of MCSamples
     mc = MCSamples(in_root, ini=ini, files_are_chains=samples_are_chains, paramNamesFile=paramnames)
+    if args.ignore_rows is not None:
+        # overrides any chain properties
+        mc._setBurnOptions(ini)
 
     if ini.bool('adjust_priors', False) or ini.bool('map_params', False):
         do_error('To adjust priors or define new parameters, use a separate python script; '
@@ -145,10 +146,11 @@ def getdist_script(args, exit_on_error=True):
 
     mc.loadChains(in_root, chain_files)
 
-    mc.removeBurnFraction(ignorerows)
+    # number of rows to ignore (if not a fraction) already left out by loadChains
+    mc.removeBurnFraction(mc.ignore_frac)
     if chains.print_load_details:
-        if ignorerows:
-            doprint('Removed %s as burn in' % ignorerows)
+        if mc.ignore_frac or mc.ignore_lines:
+            doprint('Removed %s as burn in' % (mc.ignore_frac or mc.ignore_lines))
         else:
             doprint('Removed no burn in')
 
-- 
2.43.0


From 81fd34203ed568722ed5830f8033a79346f5c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:52 +0000
Subject: [PATCH 091/165] fix: getdist command could not make nested output
 directories

---
 python/getdist/command_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index f190dea..cb000e4 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -100,7 +100,7 @@ def getdist_script(args, exit_on_error=True):
     out_dir = ini.string('out_dir', './')
     if out_dir:
         if not os.path.isdir(out_dir):
-            os.mkdir(out_dir)
+            os.makedirs(out_dir)
         doprint('producing files in directory ', out_dir)
     mc.out_dir = out_dir
 
-- 
2.43.0


From e4dcacf151fa9b02df666c71f56d6479f4f52ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:52 +0000
Subject: [PATCH 092/165] fix: plot scripts did not find the chain if out_root
 is set or it is in the current directory

---
 python/getdist/mcsamples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 3a9ea2e..16e9686 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2546,10 +2546,10 @@ class MCSamples(Chains):
         """
         with open(filename, 'w', encoding='utf-8') as f:
             f.write("import getdist.plots as plots, os\n")
-            f.write("g=plots.GetDistPlotter(chain_dir=r'%s')\n" % (self.batch_path or os.path.dirname(self.root)))
+            f.write("g=plots.GetDistPlotter(chain_dir=r'%s')\n" % (self.batch_path or os.path.dirname(self.root) or '.'))
 
             f.write("g.settings.set_with_subplot_size(%s)\n" % subplot_size)
-            f.write("roots = ['%s']\n" % self.rootname)
+            f.write("roots = ['%s']\n" % os.path.basename(self.root))
             f.write(text + '\n')
             ext = ext or self.plot_output
             fname = self.rootname + tag + '.' + ext
-- 
2.43.0


From 766dae987680900ca662c0f274935835865db688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:22 +0000
Subject: [PATCH 093/165] fix: samples without weight and likelihood columns
 were read as if they had them, and could not be thinned to a file

---
 python/getdist/chains.py    | 3 ++-
 python/getdist/mcsamples.py | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index a0ba2d2..843ad30 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1096,6 +1096,7 @@ class Chains(WeightedSamples):
         super().__init__(**kwargs)
         self.jobItem = jobItem
         self.ignore_lines = float(kwargs.get('ignore_rows', 0))
+        self.files_are_chains = kwargs.get('files_are_chains', True)
         self.root = root
         if not paramNamesFile and root:
             if os.path.exists(root + '.paramnames'):
@@ -1389,7 +1390,7 @@ class Chains(WeightedSamples):
             for fname in files_or_samples:
                 print_load_line(fname)
                 try:
-                    self.chains.append(WeightedSamples(fname, **WSkwargs))
+                    self.chains.append(WeightedSamples(fname, files_are_chains=self.files_are_chains, **WSkwargs))
                 except WeightedSampleError:
                     print_load_line('Ignored file %s (likely empty)' % fname)
             nchains = len(self.chains)
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 16e9686..313f489 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -554,19 +554,20 @@ class MCSamples(Chains):
         nparams = self.samples.shape[1]
         if cool != 1:
             logging.info('Cooled thinned output with temp: %s', cool)
-        MaxL = np.max(self.loglikes)
+        loglikes = self.loglikes if self.loglikes is not None else np.zeros(self.samples.shape[0])
+        MaxL = np.max(loglikes)
         with open(fname, 'w', encoding='utf-8') as f:
             for thin in thin_ix:
                 if cool != 1:
-                    newL = self.loglikes[thin] * cool
+                    newL = loglikes[thin] * cool
                     f.write("%16.7E" % (
-                        np.exp(-(newL - self.loglikes[thin]) - MaxL * (1 - cool))))
+                        np.exp(-(newL - loglikes[thin]) - MaxL * (1 - cool))))
                     f.write("%16.7E" % newL)
                     for j in range(nparams):
                         f.write("%16.7E" % (self.samples[thin][j]))
                 else:
                     f.write("%16.7E" % 1.)
-                    f.write("%16.7E" % (self.loglikes[thin]))
+                    f.write("%16.7E" % (loglikes[thin]))
                     for j in range(nparams):
                         f.write("%16.7E" % (self.samples[thin][j]))
                 f.write("\n")
-- 
2.43.0


From b5163ddc316a772f89ea46390574e48e6579d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:22 +0000
Subject: [PATCH 094/165] fix: chain files without parameter names could not be
 loaded

---
 python/getdist/chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 843ad30..e402457 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1396,6 +1396,8 @@ class Chains(WeightedSamples):
             nchains = len(self.chains)
             if not nchains:
                 raise WeightedSampleError('loadChains - no chains found for ' + root)
+            if self.paramNames is None:
+                self.paramNames = ParamNames(default=self.chains[0].n)
         else:
             # From arrays
             def array_dimension(a):
-- 
2.43.0


From 47ccc4c9aedf12a062c8ffdcbe1c8342f08f42d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:22 +0000
Subject: [PATCH 095/165] fix: PCA applied the mappings to the wrong parameters
 if some of them are missing

---
 python/getdist/mcsamples.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 313f489..651356e 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -645,7 +645,10 @@ class MCSamples(Chains):
 
         PCAtext = 'PCA for parameters:\n'
 
-        params = [name for name in params if self.paramNames.parWithName(name)]
+        found = [i for i, name in enumerate(params) if self.paramNames.parWithName(name)]
+        if param_map is not None:
+            param_map = [param_map[i] for i in found]
+        params = [params[i] for i in found]
         nparams = len(params)
         indices = [self.index[param] for param in params]
         conditional_params = [self.index[param] for param in conditional_params]
-- 
2.43.0


From e1a8a3d367b19544a60055198e6c6cf562cce768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:22 +0000
Subject: [PATCH 096/165] fix: getdist command for chain name patterns did not
 find Cobaya chains and wrote plot scripts also when run without settings

---
 python/getdist/command_line.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index cb000e4..e2be09e 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -41,12 +41,15 @@ def getdist_script(args, exit_on_error=True):
     if chain_root is not None and ('*' in chain_root or '?' in chain_root):
         import glob
         import copy
-        for ending in ['.paramnames', 'updated.yaml']:
+        for ending in ['.paramnames', '.updated.yaml']:
             for f in glob.glob(chain_root + ending):
                 fileargs = copy.copy(args)
-                fileargs.chain_root = f.replace(ending, '')
-                getdist_script(fileargs)
-        return
+                if no_plots:
+                    fileargs.ini_file, fileargs.chain_root = f[:-len(ending)], None
+                else:
+                    fileargs.chain_root = f[:-len(ending)]
+                result.append(getdist_script(fileargs, exit_on_error))
+        return "\n".join(result)
 
     # Input parameters
     ini = IniFile(args.ini_file)
-- 
2.43.0


From 42ce14939b737a32edeb7e2977e699c1eb75b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:20 +0000
Subject: [PATCH 097/165] fix: convergence tests failed if one sample has more
 weight than a split of the samples

---
 python/getdist/mcsamples.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 651356e..4edef6b 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -952,6 +952,9 @@ class MCSamples(Chains):
                 for ix, frac in enumerate(frac_indices):
                     split_n = 2 + ix
                     for f1, f2 in zip(frac[:-1], frac[1:]):
+                        if f1 == f2:
+                            # no samples left if a single sample has all the weight
+                            continue
                         split_tests[ix, :] += (self.confidence(self.samples[:, j], limits, start=f1,
                                                                end=f2) - confids) ** 2
 
-- 
2.43.0


From ab978e812ecd08caee7fcf63812d372df30892f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:09 +0000
Subject: [PATCH 098/165] fix: python likelihoods used type names removed from
 numpy

---
 python/CMBlikes.py           |  4 ++--
 python/planck/CMB_CamSpec.py | 14 +++++++-------
 python/planck/DES.py         | 26 +++++++++++++-------------
 python/planck/SN.py          |  2 +-
 4 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index defb1dd..8d27eca 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -52,7 +52,7 @@ class ClsArray(object):
     def __init__(self, filename=None, camb_results=None, cols=None, field_names=['T', 'E', 'B', 'P'], rescale=None,
                  lmax=None):
         self.field_names = field_names
-        self.cls_array = np.zeros((len(field_names), len(field_names)), dtype=np.object)
+        self.cls_array = np.zeros((len(field_names), len(field_names)), dtype=object)
         self.cls_array[:, :] = None
         self.lmax = 0
         self.lmin = 0
@@ -83,7 +83,7 @@ class ClsArray(object):
             dat = np.loadtxt(filename)
             if isinstance(cols, six.string_types): cols = cols.split()
         Lix = cols.index('L')
-        L = dat[:, Lix].astype(np.int)
+        L = dat[:, Lix].astype(int)
         lmin = L[0]
         lmax = L[-1]
         if not add_only:
diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index df333b0..60bc609 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -65,11 +65,11 @@ class CamSpec_likelihood(object):
             lines = f.readlines()
             while not lines[-1].strip(): lines = lines[:-1]
             self.Nspec = len(lines)
-            lmin = np.zeros(self.Nspec, dtype=np.int)
-            lmax = np.zeros(self.Nspec, dtype=np.int)
+            lmin = np.zeros(self.Nspec, dtype=int)
+            lmax = np.zeros(self.Nspec, dtype=int)
             self.cl_names = []
-            self.ell_ranges = np.empty(self.Nspec, dtype=np.object)
-            self.used_sizes = np.zeros(self.Nspec, dtype=np.int)
+            self.ell_ranges = np.empty(self.Nspec, dtype=object)
+            self.used_sizes = np.zeros(self.Nspec, dtype=int)
             for i, line in enumerate(lines):
                 items = line.split()
                 tp = items[0]
@@ -85,7 +85,7 @@ class CamSpec_likelihood(object):
                             else:
                                 ells = used_ell
                             self.ell_ranges[i] = np.array([L for L in range(lmin[i], lmax[i] + 1) if L in ells],
-                                                          dtype=np.int)
+                                                          dtype=int)
                             used_indices.append(self.ell_ranges[i] + (nX - lmin[i]))
                         else:
                             used_indices.append(range(nX, nX + n))
@@ -248,7 +248,7 @@ class CamSpec_likelihood(object):
         lmin = np.min([min(r) for r in self.ell_ranges[:4]])
         lmax = np.max([max(r) for r in self.ell_ranges[:4]])
         n_p = lmax - lmin + 1
-        LS = np.zeros(delta_vector.shape, dtype=np.int)
+        LS = np.zeros(delta_vector.shape, dtype=int)
         ix = 0
         for i, (cal, n) in enumerate(zip(cals[:4], self.used_sizes[:4])):
             if n > 0:
@@ -262,7 +262,7 @@ class CamSpec_likelihood(object):
         ix1 = 0
         Loffsets = [LS - lmin for LS in self.ell_ranges[:4]]
         contiguous = not np.any(
-            [np.count_nonzero(LS - np.arange(LS[0], LS[-1] + 1, dtype=np.int)) for LS in self.ell_ranges[:4]])
+            [np.count_nonzero(LS - np.arange(LS[0], LS[-1] + 1, dtype=int)) for LS in self.ell_ranges[:4]])
         for i, (cal, LS, n) in enumerate(zip(cals[:4], Loffsets, self.used_sizes[:4])):
             dL[LS] += d[ix1:ix1 + n] / cal
             ix = 0
diff --git a/python/planck/DES.py b/python/planck/DES.py
index 034fc71..45b4796 100644
--- a/python/planck/DES.py
+++ b/python/planck/DES.py
@@ -147,10 +147,10 @@ class DES_like(object):
         self.thetas = []
         for i, tp in enumerate(self.data_types):
             xi = np.loadtxt(ini.relativeFileName('measurements[%s]' % tp))
-            bin1 = xi[:, 0].astype(np.int) - 1
-            bin2 = xi[:, 1].astype(np.int) - 1
-            tbin = xi[:, 2].astype(np.int) - 1
-            corr = np.empty((maxbin, maxbin), dtype=np.object)
+            bin1 = xi[:, 0].astype(int) - 1
+            bin2 = xi[:, 1].astype(int) - 1
+            tbin = xi[:, 2].astype(int) - 1
+            corr = np.empty((maxbin, maxbin), dtype=object)
             corr[:, :] = None
             self.data_arrays.append(corr)
             self.bin_pairs.append([])
@@ -214,9 +214,9 @@ class DES_like(object):
                 cov_ix += 1
 
         self.nzbins = 4  # for lensing sources
-        corrs_p = np.empty((self.nzbins, self.nzbins), dtype=np.object)
+        corrs_p = np.empty((self.nzbins, self.nzbins), dtype=object)
         corrs_p[:, :] = None
-        corrs_m = np.empty((self.nzbins, self.nzbins), dtype=np.object)
+        corrs_m = np.empty((self.nzbins, self.nzbins), dtype=object)
         corrs_m[:, :] = None
         ntheta = 20
         self.theta_bins = np.empty(ntheta)
@@ -229,7 +229,7 @@ class DES_like(object):
                 corrs[f1, f2][ix] = dat
 
         self.nwbins = 5  # for galaxies
-        corrs_w = np.empty((self.nwbins, self.nwbins), dtype=np.object)
+        corrs_w = np.empty((self.nwbins, self.nwbins), dtype=object)
         for f1 in range(self.nwbins):
             corrs_w[f1, f1] = np.empty(ntheta)
         wdata = hdulist['wtheta'].data
@@ -239,7 +239,7 @@ class DES_like(object):
             assert (np.abs(self.theta_bins[ix] / theta - 1) < 2e-3)
             corrs_w[f1, f2][ix] = dat
 
-        corrs_t = np.empty((self.nwbins, self.nwbins), dtype=np.object)
+        corrs_t = np.empty((self.nwbins, self.nwbins), dtype=object)
         corrs_t[:, :] = None
         tdata = hdulist['gammat'].data
         for f1, f2, ix, dat, theta in zip(tdata.field(0) - 1, tdata.field(1) - 1, tdata.field(2), tdata.field(3),
@@ -416,7 +416,7 @@ class DES_like(object):
             # Approximate bessel integral as binned smooth C_L against integrals of bessel in each bin.
             # Here we crudely precompute an approximation to the bessel integral by brute force
             dls = np.diff(np.unique((np.exp(np.linspace(np.log(1.), np.log(self.lmax), int(500 * acc)))).astype(
-                np.int)))
+                int)))
             groups = []
             ell = 2  # ell_min
             self.ls_bessel = np.zeros(dls.size)
@@ -552,10 +552,10 @@ class DES_like(object):
         else:
             tmplens = tmp
 
-        corrs_th_p = np.empty((self.nzbins, self.nzbins), dtype=np.object)
-        corrs_th_m = np.empty((self.nzbins, self.nzbins), dtype=np.object)
-        corrs_th_w = np.empty((self.nwbins, self.nwbins), dtype=np.object)
-        corrs_th_t = np.empty((self.nwbins, self.nzbins), dtype=np.object)
+        corrs_th_p = np.empty((self.nzbins, self.nzbins), dtype=object)
+        corrs_th_m = np.empty((self.nzbins, self.nzbins), dtype=object)
+        corrs_th_w = np.empty((self.nwbins, self.nwbins), dtype=object)
+        corrs_th_t = np.empty((self.nwbins, self.nzbins), dtype=object)
         if self.use_hankel:
             # Note that the absolute value of the correlation depends on what you do about L_min (e.g. 1 vs 2 vs 0 makes a difference).
             if 'xip' in self.used_types or 'xim' in self.used_types:
diff --git a/python/planck/SN.py b/python/planck/SN.py
index 006ee81..ae4c593 100644
--- a/python/planck/SN.py
+++ b/python/planck/SN.py
@@ -175,7 +175,7 @@ class SN_likelihood(object):
             self.int_points = _int_points
             self.alpha_grid = self.alpha_grid[:_int_points]
             self.beta_grid = self.beta_grid[:_int_points]
-            self.invcovs = np.empty(_int_points, dtype=np.object)
+            self.invcovs = np.empty(_int_points, dtype=object)
             if precompute_covmats:
                 for i, (alpha, beta) in enumerate(zip(self.alpha_grid, self.beta_grid)):
                     self.invcovs[i] = self.inverse_covariance_matrix(alpha, beta)
-- 
2.43.0


From 91ca9dfabb2e6f929b269ad39a225b7749f33abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 099/165] fix: CMB datasets with a single bin could not be read

---
 python/CMBlikes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 8d27eca..899bc19 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -259,7 +259,7 @@ class DatasetLikelihood(object):
         else:
             incols = 'L ' + order
         cols = self.GetColsFromOrder(incols)
-        data = np.loadtxt(filename)
+        data = np.loadtxt(filename, ndmin=2)
         Ls = data[:, 0].astype(int)
         if self.binned: Ls -= 1
         for i, L in enumerate(Ls):
@@ -287,7 +287,7 @@ class DatasetLikelihood(object):
         bins.binning_matrix = np.zeros((norder, self.nbins_used, self.pcl_lmax - self.pcl_lmin + 1))
         windows = ini.relativeFileName(file_stem + '_files')
         for b in range(self.nbins_used):
-            window = np.loadtxt(windows % (b + 1 + self.bin_min))
+            window = np.loadtxt(windows % (b + 1 + self.bin_min), ndmin=2)
             Err = False
             for i, L in enumerate(window[:, 0].astype(int)):
                 if self.pcl_lmin <= L <= self.pcl_lmax:
@@ -506,7 +506,7 @@ class DatasetLikelihood(object):
         covmat_cl = ini.string('covmat_cl', allowEmpty=False)
         if ini.string('covmat_format', 'text') != 'text':
             raise Exception('Only text oovmat supported in python so far')
-        self.full_cov = np.loadtxt(ini.relativeFileName('covmat_fiducial'))
+        self.full_cov = np.loadtxt(ini.relativeFileName('covmat_fiducial'), ndmin=2)
         covmat_scale = ini.float('covmat_scale', 1.0)
         cl_in_index = self.UseString_to_cols(covmat_cl)
         self.ncl_used = np.sum(cl_in_index >= 0)
-- 
2.43.0


From 893c567157c55fccde0d5be395ed900eff6ce537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 100/165] fix: maps required for corrections were used in the
 CMB likelihood if maps_use is given

---
 python/CMBlikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 899bc19..fdce6f2 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -358,7 +358,7 @@ class DatasetLikelihood(object):
 
         # Bandpowers can depend on more fields than are actually used in likelihood
         # e.g. for correcting leakage or other linear corrections
-        self.require_map = self.use_map[:]
+        self.require_map = list(self.use_map)
         if self.has_map_names:
             if ini.hasKey('fields_required'):
                 raise Exception('CMBLikes: use maps_required not fields_required')
-- 
2.43.0


From 3c2ecc8d3bb1241ec3c98a178d45bb4d27379087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 101/165] fix: gaussian CMB likelihood subtracted noise from
 bandpowers and also added it to the theory

---
 python/CMBlikes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index fdce6f2..2c5ef71 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -440,6 +440,7 @@ class DatasetLikelihood(object):
                 self.bandpowers += self.cl_noise
             elif self.like_approx == 'gaussian':
                 self.bandpowers -= self.cl_noise
+                self.cl_noise = None
 
         self.cl_lmax = np.zeros((self.tot_theory_fields, self.tot_theory_fields))
         for i in range(self.tot_theory_fields):
-- 
2.43.0


From 4ec7884f3955061b134a87cfb6e9d207397e1174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 102/165] fix: CMB bandpowers without bin windows gave wrong
 shape of binned theory

---
 python/CMBlikes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 2c5ef71..759f161 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -115,13 +115,14 @@ class ClsArray(object):
 
 
 class BinWindows(object):
-    def __init__(self, lmin, lmax, nbins):
+    def __init__(self, lmin, lmax, nbins, ncl):
         self.lmin = lmin
         self.lmax = lmax
         self.nbins = nbins
+        self.ncl = ncl
 
     def bin(self, TheoryCls, cls=None):
-        if cls is None: cls = np.zeros((self.nbins, max([x for x in self.cols_out if x >= 0]) + 1))
+        if cls is None: cls = np.zeros((self.nbins, self.ncl))
         for i, ((x, y), ix_out) in enumerate(zip(self.cols_in.T, self.cols_out)):
             cl = TheoryCls[x, y]
             if cl is not None and ix_out >= 0:
@@ -275,7 +276,7 @@ class DatasetLikelihood(object):
             return cl
 
     def readBinWindows(self, ini, file_stem):
-        bins = BinWindows(self.pcl_lmin, self.pcl_lmax, self.nbins_used)
+        bins = BinWindows(self.pcl_lmin, self.pcl_lmax, self.nbins_used, self.ncl)
         in_cl = ini.split(file_stem + '_in_order')
         out_cl = ini.split(file_stem + '_out_order', in_cl)
         bins.cols_in = self.UseString_to_Cl_i_j(in_cl, self.map_required_index)
-- 
2.43.0


From a65ece14770ab648702afb0ee3a3922ec43c2649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 103/165] fix: writing CMB likelihood foregrounds and windows
 to file failed

---
 python/CMBlikes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 759f161..48ef7b3 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -130,11 +130,12 @@ class BinWindows(object):
         return cls
 
     def write(self, froot, stem):
-        if not os.path.exists(froot + stem + '_window'): os.mkdir(froot + '_window')
+        if not os.path.exists(froot + stem + '_window'): os.mkdir(froot + stem + '_window')
         for b in range(self.nbins):
             with open(froot + stem + '_window/window%u.dat' % (b + 1), 'w') as f:
-                for L in np.arange(self.lmin[b], self.lmax[b] + 1):
-                    f.write(("%5u " + "%10e" * len(self.cols_in) + "\n") % (L, self.binning_matrix[:, b, L]))
+                for L in np.arange(self.lmin, self.lmax + 1):
+                    f.write(("%5u" + " %10e" * len(self.cols_out) + "\n")
+                            % ((L,) + tuple(self.binning_matrix[:, b, L - self.lmin])))
 
 
 class DatasetLikelihood(object):
@@ -634,13 +635,13 @@ class DatasetLikelihood(object):
             for i in range(self.nmaps_required):
                 for j in range(i + 1):
                     cols.append(self.Cl_i_j_name(self.map_names, cls[i, j].map_ij))
-            f.write('#    L' + ("%17s " * len(cols)) % tuple(cols) + '\n')
+            f.write('#    L ' + ("%17s " * len(cols)) % tuple(cols) + '\n')
             for b in range(self.pcl_lmin, self.pcl_lmax + 1):
                 c = [b]
                 for i in range(self.nmaps_required):
                     for j in range(i + 1):
                         c.append(cls[i, j].CL[b - self.pcl_lmin])
-                f.write(("%I5 " + "%17.8e " * len(cols)) % tuple(c))
+                f.write(("%5u " + "%17.8e " * len(cols) + "\n") % tuple(c))
 
     def transform(self, C, Chat, Cfhalf):
         # HL transformation of the matrices
-- 
2.43.0


From 9475a585b6917e0321cf7d356358874b56ccd843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 104/165] fix: CMB bandpower plots ignored the requested
 spectrum and did not show the theory

---
 python/CMBlikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 48ef7b3..5dd88e5 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -556,7 +556,7 @@ class DatasetLikelihood(object):
 
         binned_phicl_err = self.diag_sigma()
         ax = ax or plt.gca()
-        bandpowers = self.full_bandpowers[:, self.full_bandpower_headers.index('PP')]
+        bandpowers = self.full_bandpowers[:, self.full_bandpower_headers.index(column)]
         if 'L_min' in self.full_bandpower_headers:
             lmin = self.full_bandpowers[:, self.full_bandpower_headers.index('L_min')]
             lmax = self.full_bandpowers[:, self.full_bandpower_headers.index('L_max')]
@@ -725,7 +725,7 @@ class DatasetLikelihood(object):
 def plotAndChisq(dataset, cl_file, data_params={}):
     d = DatasetLikelihood(dataset)
     cls = ClsArray(cl_file)
-    d.plot(cls)
+    d.plot(ClArray=cls)
     print('Chi-squared: ', d.chi_squared(cls, data_params))
     plt.show()
 
-- 
2.43.0


From 50b3c6f43375282ddb76ab1a6412094c4c012e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 105/165] fix: rescaled theory spectra assumed four fields

---
 python/CMBlikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 5dd88e5..550f0c4 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -71,8 +71,8 @@ class ClsArray(object):
             self.cls_array[1, 0] = totcl[:, 3]
             self.cls_array[3, 3] = camb_results.get_lens_potential_cls(lmax)[:, 0]
         if rescale is not None:
-            for i in range(4):
-                for j in range(4):
+            for i in range(len(field_names)):
+                for j in range(len(field_names)):
                     if self.cls_array[i, j] is not None:
                         self.cls_array[i, j] *= rescale
 
-- 
2.43.0


From e5fe638c8c2b341e22c92c35b001aee0255ec64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:02 +0000
Subject: [PATCH 106/165] fix: forecast datasets with lensing reconstruction
 noise could not be made

---
 python/makePerfectForecastDataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/makePerfectForecastDataset.py b/python/makePerfectForecastDataset.py
index bbf283f..3ba914e 100644
--- a/python/makePerfectForecastDataset.py
+++ b/python/makePerfectForecastDataset.py
@@ -35,7 +35,7 @@ def make_forecast_cmb_dataset(input_cl_file, output_root, output_dir=None, noise
     :return:
     """
 
-    use_lensing = lens_recon_noise
+    use_lensing = lens_recon_noise is not None
     use_CMB = noise_muK_arcmin_T or NoiseVar is not None
 
     ini = IniFile()
@@ -85,9 +85,10 @@ def make_forecast_cmb_dataset(input_cl_file, output_root, output_dir=None, noise
         f.write('#L %s\n' % noise_cols)
 
         for l in range(lmin, lmax + 1):
-            NoiseCl = l * (l + 1.) / 2 / np.pi * NoiseVar * np.exp(l * (l + 1) * sigma2)
             noises = []
-            if use_CMB: noises += [NoiseCl, ENoiseFac * NoiseCl, ENoiseFac * NoiseCl]
+            if use_CMB:
+                NoiseCl = l * (l + 1.) / 2 / np.pi * NoiseVar * np.exp(l * (l + 1) * sigma2)
+                noises += [NoiseCl, ENoiseFac * NoiseCl, ENoiseFac * NoiseCl]
             if use_lensing: noises += [lens_recon_noise[l]]
             f.write("%d " % l + " ".join("%E" % elem for elem in noises) + "\n")
 
-- 
2.43.0


From 7e220167821ba758f006298ce670f19fff6a739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:02 +0000
Subject: [PATCH 107/165] fix: forecast datasets used temperature and
 polarization also if not in the input file

---
 python/makePerfectForecastDataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/makePerfectForecastDataset.py b/python/makePerfectForecastDataset.py
index 3ba914e..2821515 100644
--- a/python/makePerfectForecastDataset.py
+++ b/python/makePerfectForecastDataset.py
@@ -59,8 +59,8 @@ def make_forecast_cmb_dataset(input_cl_file, output_root, output_dir=None, noise
             raise ValueError('Specific either noise_muK_arcmin or NoiseVar')
         if not fields_use:
             fields_use = ''
-            if 'TT' or 'TE' in cl_data_cols: fields_use = 'T'
-            if 'EE' or 'TE' in cl_data_cols: fields_use += ' E'
+            if 'TT' in cl_data_cols or 'TE' in cl_data_cols: fields_use = 'T'
+            if 'EE' in cl_data_cols or 'TE' in cl_data_cols: fields_use += ' E'
             if 'BB' in cl_data_cols: fields_use += ' B'
             if 'PP' in cl_data_cols and use_lensing: fields_use += ' P'
     else:
-- 
2.43.0


From afe31f90732067263244fafa758309a7641a2733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:38 +0000
Subject: [PATCH 108/165] fix: supernova data with blank lines could not be
 used

---
 python/planck/SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/SN.py b/python/planck/SN.py
index ae4c593..b712ea0 100644
--- a/python/planck/SN.py
+++ b/python/planck/SN.py
@@ -78,7 +78,7 @@ class SN_likelihood(object):
         self.names = []
         ix = 0
         with io.open(data_file, 'r') as f:
-            lines = f.readlines()
+            lines = [line for line in f.readlines() if line.strip()]
             for line in lines:
                 if '#' in line:
                     cols = line[1:].split()
-- 
2.43.0


From 1652781dce8b3165d7dbd56c4473949a8b16bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:38 +0000
Subject: [PATCH 109/165] fix: CamSpec likelihood could not be loaded

---
 python/planck/CMB_CamSpec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index 60bc609..f46aeb0 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -41,6 +41,7 @@ class CamSpec_likelihood(object):
         return dat
 
     def __init__(self, dataset, dataset_params={}, silent=False):
+        self.dataset_file = dataset
         if not silent: print('loading: %s' % dataset)
         ini = IniFile(dataset)
         ini.params.update(dataset_params)
-- 
2.43.0


From 148f261c24590aa20e0b24c9dc1fba9bb05b31b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:38 +0000
Subject: [PATCH 110/165] fix: CamSpec CIB tilt and running used integer
 logarithms

---
 python/planck/CMB_CamSpec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index f46aeb0..c2a47ef 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -127,7 +127,7 @@ class CamSpec_likelihood(object):
                                    self.read_normalized(ini.relativeFileName('dust143file'))[:max_l + 1],
                                    self.read_normalized(ini.relativeFileName('dust217file'))[:max_l + 1],
                                    self.read_normalized(ini.relativeFileName('dust143x217file'))[:max_l + 1]))
-            self.lnrat = self.ls * 0
+            self.lnrat = np.zeros(self.ls.shape)
             l_min = np.min(lmin[self.cl_used])
             self.lnrat[l_min:] = np.log(self.ls[l_min:] / np.float64(pivot))
 
-- 
2.43.0


From 522288eb107a8cd61dd43581344b927c71d9bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:38 +0000
Subject: [PATCH 111/165] fix: CamSpec single multipoles in use_range failed

---
 python/planck/CMB_CamSpec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index c2a47ef..998b7d3 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -21,7 +21,7 @@ def range_to_ells(use_range):
                 mn, mx = [int(x) for x in ell_range.split('-')]
                 ranges.append(range(mn, mx + 1))
             else:
-                ranges.append(int(ell_range))
+                ranges.append([int(ell_range)])
         return np.concatenate(ranges)
     else:
         return use_range
-- 
2.43.0


From 8eb21523941872d792f004679d65bd5e952223db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:38 +0000
Subject: [PATCH 112/165] fix: CamSpec changed the use_range settings of the
 caller

---
 python/planck/CMB_CamSpec.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index 998b7d3..db5faa3 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -52,8 +52,7 @@ class CamSpec_likelihood(object):
             used_ell = ini.params['use_range']
             if isinstance(used_ell, dict):
                 print('Using range %s' % used_ell)
-                for key, value in used_ell.items():
-                    used_ell[key] = range_to_ells(value)
+                used_ell = {key: range_to_ells(value) for key, value in used_ell.items()}
             else:
                 if not silent: print('Using range: %s' % used_ell)
                 used_ell = range_to_ells(used_ell)
-- 
2.43.0


From 2d0b3cccf33fdf257c33eb29b2392ebb4c14dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:38 +0000
Subject: [PATCH 113/165] fix: CamSpec used saved inverse covariances of other
 data or ranges

---
 python/planck/CMB_CamSpec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index db5faa3..11672ae 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -132,7 +132,7 @@ class CamSpec_likelihood(object):
 
         import hashlib
         cache_file = self.dataset_file.replace('.dataset', '_covinv_%s.npy' % hashlib.md5(
-            str(ini.params).encode('utf8')).hexdigest())
+            self.cov.tobytes()).hexdigest())
         if use_cache and os.path.exists(cache_file):
             self.covinv = np.load(cache_file).astype(np.float64)
         else:
-- 
2.43.0


From d59a56feade4a196f75f03ec29f753f07c603c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:14 +0000
Subject: [PATCH 114/165] fix: CamSpec weights could only be computed by the
 test script

---
 python/planck/CMB_CamSpec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index 11672ae..6f53398 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -293,8 +293,8 @@ class CamSpec_likelihood(object):
         f = self.get_foregrounds(data_params) * 0
         weights = []
         for i in range(4):
-            ells = camspec.ell_ranges[i]
-            vec = np.zeros(camspec.data_vector.shape)
+            ells = self.ell_ranges[i]
+            vec = np.zeros(self.data_vector.shape)
             vec[ix:ix + len(ells)] = 1
             Ti = self.coadded_TT(data_params, data_vector=vec, want_cov=False, foregrounds=f)
             weights.append((ells, Ti[ells]))
-- 
2.43.0


From 8fdd816f7f7eb2699d93f60f5c0877ae953dcd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:38 +0000
Subject: [PATCH 115/165] fix: CamSpec coadded spectra failed if not all
 temperature spectra are used

---
 python/planck/CMB_CamSpec.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/planck/CMB_CamSpec.py b/python/planck/CMB_CamSpec.py
index 6f53398..b0208fc 100644
--- a/python/planck/CMB_CamSpec.py
+++ b/python/planck/CMB_CamSpec.py
@@ -245,8 +245,9 @@ class CamSpec_likelihood(object):
             data_vector = self.data_vector
         delta_vector = data_vector[:nTT].copy()
         cal_vector = np.zeros(delta_vector.shape)
-        lmin = np.min([min(r) for r in self.ell_ranges[:4]])
-        lmax = np.max([max(r) for r in self.ell_ranges[:4]])
+        used = np.where(self.used_sizes[:4] > 0)[0]
+        lmin = np.min([min(r) for r in self.ell_ranges[used]])
+        lmax = np.max([max(r) for r in self.ell_ranges[used]])
         n_p = lmax - lmin + 1
         LS = np.zeros(delta_vector.shape, dtype=int)
         ix = 0
@@ -260,13 +261,13 @@ class CamSpec_likelihood(object):
         d = self.covinv[:nTT, :nTT].dot(delta_vector)
         dL = np.zeros(n_p)
         ix1 = 0
-        Loffsets = [LS - lmin for LS in self.ell_ranges[:4]]
+        Loffsets = [LS - lmin for LS in self.ell_ranges[used]]
         contiguous = not np.any(
-            [np.count_nonzero(LS - np.arange(LS[0], LS[-1] + 1, dtype=int)) for LS in self.ell_ranges[:4]])
-        for i, (cal, LS, n) in enumerate(zip(cals[:4], Loffsets, self.used_sizes[:4])):
+            [np.count_nonzero(LS - np.arange(LS[0], LS[-1] + 1, dtype=int)) for LS in self.ell_ranges[used]])
+        for i, (cal, LS, n) in enumerate(zip(cals[used], Loffsets, self.used_sizes[used])):
             dL[LS] += d[ix1:ix1 + n] / cal
             ix = 0
-            for cal2, r in zip(cals[:4], Loffsets):
+            for cal2, r in zip(cals[used], Loffsets):
                 if contiguous:
                     pcov[LS[0]:LS[0] + n, r[0]:r[0] + len(r)] += self.covinv[ix1:ix1 + n, ix:ix + len(r)] / (
                             cal2 * cal)
@@ -292,7 +293,7 @@ class CamSpec_likelihood(object):
         ix = 0
         f = self.get_foregrounds(data_params) * 0
         weights = []
-        for i in range(4):
+        for i in np.where(self.used_sizes[:4] > 0)[0]:
             ells = self.ell_ranges[i]
             vec = np.zeros(self.data_vector.shape)
             vec[ix:ix + len(ells)] = 1
-- 
2.43.0


From 6f7668409255179cf928d7c4350aa659843cafd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 116/165] fix: plot_args settings leak from one plotted line to
 the next

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 54f7f28..47a134b 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -786,7 +786,7 @@ class GetDistPlotter(_BaseObject):
         else:
             raise GetDistPlotError(
                 'plot_args must be list of dictionaries or dictionary: %s' % self.settings.plot_args)
-        args.update(kwargs)
+        args = dict(args, **kwargs)
         return args
 
     def _get_dashes_for_ls(self, ls):
-- 
2.43.0


From e869c2bc54d763f039341b1793cb8bdcba810730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 117/165] fix: plotting changes the line_args list passed by
 the caller

---
 python/getdist/plots.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 47a134b..20afb39 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1368,8 +1368,7 @@ class GetDistPlotter(_BaseObject):
             line_args = [{}] * nroots
         elif isinstance(line_args, Mapping):
             line_args = [line_args] * nroots
-        if len(line_args) < nroots:
-            line_args += [{}] * (nroots - len(line_args))
+        line_args = list(line_args) + [{}] * (nroots - len(line_args))
         colors = self._get_color_at_index(kwargs.get('colors'))
 
         def _get_list(tag):
-- 
2.43.0


From 48f8ca91b45d2acdc3a2e6eb0bee13177d7f8442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 118/165] fix: plotting a normalised density changes later
 plots and limits of the samples

---
 python/getdist/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 20afb39..cc32e31 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -976,7 +976,8 @@ class GetDistPlotter(_BaseObject):
 
         title_limit = title_limit if title_limit is not None else self.settings.title_limit
         if normalized:
-            density.normalize()
+            # density can be cached, here and by the samples
+            density = copy.copy(density).normalize()
 
         kwargs = self._get_line_styles(plotno, **kwargs)
         self.lines_added[plotno] = kwargs
-- 
2.43.0


From 3c409f75db7c70e0e59fbe55dfd43d9a64bf4407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 119/165] fix: norm_1d_density plot setting is ignored by
 plot_1d

---
 python/getdist/plots.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index cc32e31..830c0e5 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1531,7 +1531,7 @@ class GetDistPlotter(_BaseObject):
         ax.set_zlabel(param.latexLabel(), fontsize=self._scaled_fontsize(self.settings.axes_labelsize), **kwargs)
 
     def plot_1d(self, roots, param, marker=None, marker_color=None, label_right=False, title_limit=None,
-                no_ylabel=False, no_ytick=False, no_zero=False, normalized=False, param_renames=None, ax=None,
+                no_ylabel=False, no_ytick=False, no_zero=False, normalized=None, param_renames=None, ax=None,
                 **kwargs):
         """
         Make a single 1D plot with marginalized density lines.
@@ -1546,7 +1546,8 @@ class GetDistPlotter(_BaseObject):
         :param no_ylabel: If True excludes the label on the y axis
         :param no_ytick: If True show no y ticks
         :param no_zero: If true does not show tick label at zero on y axis
-        :param normalized: plot normalized densities (if False, densities normalized to peak at 1)
+        :param normalized: plot normalized densities (if False, densities normalized to peak at 1).
+                           Default from settings.norm_1d_density.
         :param param_renames: optional dictionary mapping input parameter names to equivalent names used by the samples
         :param ax: optional :class:`~matplotlib:matplotlib.axes.Axes` instance (or y,x subplot coordinate)
                    to add to (defaults to current plot or the first/main plot if none)
@@ -1578,6 +1579,8 @@ class GetDistPlotter(_BaseObject):
 
         """
         roots = makeList(roots)
+        if normalized is None:
+            normalized = self.settings.norm_1d_density
         ax = self.get_axes(ax, pars=(param,))
         plotparam = None
         plotroot = None
-- 
2.43.0


From 5369b4ef8253fe8be686d62bec4870ca14fed423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 120/165] fix: plot_meanlikes uses a setting that does not
 exist

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 830c0e5..c2003cc 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -985,7 +985,7 @@ class GetDistPlotter(_BaseObject):
         if kwargs.get('dashes'):
             l.set_dashes(kwargs['dashes'])
         if self.settings.plot_meanlikes:
-            kwargs['lw'] = self._scaled_linewidth(self.settings.linewidth_likes)
+            kwargs['lw'] = self._scaled_linewidth(self.settings.linewidth_meanlikes)
             ax.plot(density.x, density.likes, **kwargs)
         if title_limit:
             if isinstance(root, MixtureND):
-- 
2.43.0


From 6330c3239b302b6eedf71b4110c2f88a4ebeddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 121/165] fix: plot_3d fails with params_for_plots and lims

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index c2003cc..0072e64 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2939,8 +2939,8 @@ class GetDistPlotter(_BaseObject):
             res = self.add_2d_contours(root, params[0], params[1], i + line_offset, add_legend_proxy=add_legend_proxy,
                                        zorder=i + 1, ax=ax, **contour_args[i])
             xlims, ylims = self._update_limits(res, xlims, ylims)
+        params = params_for_plots[0]
         if 'lims' not in kwargs:
-            params = params_for_plots[0]
             lim1 = self._check_param_ranges(roots[0], params[0].name, xlims[0], xlims[1])
             lim2 = self._check_param_ranges(roots[0], params[1].name, ylims[0], ylims[1])
             kwargs['lims'] = [lim1[0], lim1[1], lim2[0], lim2[1]]
-- 
2.43.0


From 0e35970c07138e8a65cce1f04ba6db08e21e35ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 122/165] fix: plot_2d_scatter fails with alpha_samples

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 0072e64..3d95b7c 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2813,7 +2813,7 @@ class GetDistPlotter(_BaseObject):
             filt = weights > max_weight / (100 * dup_fac)
             x = samples[0][filt]
             y = samples[1][filt]
-            z = samples[2][filt]
+            z = samples[0 if fixed_color else 2][filt]
             # split up high-weighted samples into multiple copies
             weights = weights[filt] / max_weight * dup_fac
             intweights = np.ceil(weights)
-- 
2.43.0


From f7ecb7c3d72e6c2885e53ca47f41fddaf4b0bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 123/165] fix: rectangle_plot fails with yroots or plot_roots
 and no legend labels

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 3d95b7c..7d6a24e 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2664,7 +2664,7 @@ class GetDistPlotter(_BaseObject):
         if roots:
             legend_labels = self._default_legend_labels(legend_labels, roots)
         self.finish_plot(legend_labels=legend_labels, label_order=label_order,
-                         legend_ncol=legend_ncol or self.settings.figure_legend_ncol or len(legend_labels))
+                         legend_ncol=legend_ncol or self.settings.figure_legend_ncol or len(legend_labels or []))
         return ax_arr
 
     def rotate_xticklabels(self, ax=None, rotation=90, labelsize=None):
-- 
2.43.0


From 193cfe1ba7c8d7e7f9106985ce1169f5cd3bcf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 124/165] fix: triangle_plot with plot_3d_with_param draws
 contours in the colours of other samples

---
 python/getdist/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 7d6a24e..260f487 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2474,7 +2474,7 @@ class GetDistPlotter(_BaseObject):
                 ax = self.subplots[i2, i]
                 if plot_3d_with_param is not None:
                     self.plot_3d(roots, pair + [col_param], color_bar=False, line_offset=1, add_legend_proxy=False,
-                                 do_xlabel=i2 == plot_col - 1, do_ylabel=i == 0, contour_args=contour_args,
+                                 do_xlabel=i2 == plot_col - 1, do_ylabel=i == 0, contour_args=contour_args[1:],
                                  no_label_no_numbers=self.settings.no_triangle_axis_labels, ax=ax, **kwargs)
                 else:
                     self.plot_2d(roots, param_pair=pair, do_xlabel=i2 == plot_col - 1, do_ylabel=i == 0,
@@ -2507,7 +2507,7 @@ class GetDistPlotter(_BaseObject):
                     if plot_3d_with_param is not None:
                         self.plot_3d(upper_roots, pair + [col_param], color_bar=False, line_offset=1,
                                      add_legend_proxy=False, ax=ax, do_xlabel=False,
-                                     do_ylabel=upper_label_right and i2 == bottom, contour_args=upper_contour_args,
+                                     do_ylabel=upper_label_right and i2 == bottom, contour_args=upper_contour_args[1:],
                                      no_label_no_numbers=self.settings.no_triangle_axis_labels)
                     else:
                         self.plot_2d(upper_roots, param_pair=pair, do_xlabel=False,
-- 
2.43.0


From 783aa518ad2b6dc464d75f4eed729641ef0dad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 125/165] fix: export with a tag or a dot in the directory name
 loses the file extension

---
 python/getdist/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 260f487..c6ef27a 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -3228,10 +3228,10 @@ class GetDistPlotter(_BaseObject):
         """
         if fname is None:
             fname = os.path.basename(sys.argv[0]).replace('.py', '')
+        fname, ext = os.path.splitext(fname)
         if tag:
             fname += '_' + tag
-        if '.' not in fname:
-            fname += '.' + getdist.default_plot_output
+        fname += ext or '.' + getdist.default_plot_output
         if adir is not None and os.sep not in fname and '/' not in fname:
             fname = os.path.join(adir, fname)
         adir = os.path.dirname(fname)
-- 
2.43.0


From 22616b51b30b2679961ada6d3a15738be7473436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:08 +0000
Subject: [PATCH 126/165] fix: plot_4d axes are not part of the figure with
 recent matplotlib versions

---
 python/getdist/plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index c6ef27a..1e14c18 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -3123,11 +3123,12 @@ class GetDistPlotter(_BaseObject):
         if not params:
             raise GetDistPlotError('No parameters for plot_4d!')
         params = self.get_param_array(roots[0], params)
-        from mpl_toolkits.mplot3d import Axes3D
+        # noinspection PyUnresolvedReferences
+        from mpl_toolkits.mplot3d import Axes3D  # noqa: F401, needed for 3d projection in old matplotlib versions
         if not ax:
             if not self.fig:
                 self.make_figure()
-            ax = self.subplots[0, 0] = Axes3D(self.fig)
+            ax = self.subplots[0, 0] = self.fig.add_axes([0, 0, 1, 1], projection='3d')
             ax.dist = dist
         pts = []
         for i, (root, alph, mark) in enumerate(extend_list_zip(roots, alpha, marker)):
-- 
2.43.0


From 115def7f581d145ffae2b6f3e02b651a6a431a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:14 +0000
Subject: [PATCH 127/165] fix: half-phase ticks can be outside the axis when
 not pruned

---
 python/getdist/matplotlib_ext.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/matplotlib_ext.py b/python/getdist/matplotlib_ext.py
index 61e81ff..9c89e87 100644
--- a/python/getdist/matplotlib_ext.py
+++ b/python/getdist/matplotlib_ext.py
@@ -281,6 +281,7 @@ class BoundedMaxNLocator(ticker.MaxNLocator):
                                         break
                                     shifted = ticks + shift * sc
                                     if any(np.round(shifted / sc / 10) * 10 == np.round(shifted / sc)) \
+                                            and shifted[0] >= vmin and shifted[-1] <= vmax \
                                             and self._valid(shifted):
                                         ticks = shifted
 
-- 
2.43.0


From 2e14c0599955c10005596c5ca1dccf1adbc7a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:36 +0000
Subject: [PATCH 128/165] fix: legend line_offset is ignored for 1D lines

---
 python/getdist/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 1e14c18..c78b2f2 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1883,12 +1883,12 @@ class GetDistPlotter(_BaseObject):
         lines = []
         if len(self.contours_added) == 0:
             for i in range(len(legend_labels)):
-                args = self.lines_added.get(i)
+                args = self.lines_added.get(i + line_offset)
                 if not args:
                     if not figure:
                         ax_lines = self.get_axes(ax).lines
-                        if len(ax_lines) > i:
-                            lines.append(ax_lines[i])
+                        if len(ax_lines) > i + line_offset:
+                            lines.append(ax_lines[i + line_offset])
                             continue
                     args = self._get_line_styles(i + line_offset)
                 args.pop('filled', None)
-- 
2.43.0


From a91a98f73aba89ec6c4d83f0fd3c2e4a9bd44806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 129/165] fix: dumped spectra in the current directory are not
 found

---
 python/chainDumpPlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/chainDumpPlot.py b/python/chainDumpPlot.py
index 9e2d660..db675de 100644
--- a/python/chainDumpPlot.py
+++ b/python/chainDumpPlot.py
@@ -23,7 +23,7 @@ def loadFiles(pat, max_files=400, cl_ix=1, calParam=None, rescale=1):
     pars = []
     cls = []
     ls = None
-    for f in os.listdir(d):
+    for f in os.listdir(d or '.'):
         if fnmatch.fnmatch(f, name + '.theory_cl'):
             fname = f.replace('.theory_cl', '')
             params = types.BestFit(os.path.join(d, fname + '.pars'))
-- 
2.43.0


From b8c4f2cb9ccd1cd7cf2505b6af21b9bf08a710d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 130/165] fix: density plot of dumped spectra fails (float
 array sizes), and is wrong for negative spectra

---
 python/chainDumpPlot.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/chainDumpPlot.py b/python/chainDumpPlot.py
index db675de..38c79df 100644
--- a/python/chainDumpPlot.py
+++ b/python/chainDumpPlot.py
@@ -42,11 +42,10 @@ def loadFiles(pat, max_files=400, cl_ix=1, calParam=None, rescale=1):
 
 def CLdensity(samples, param, scalarMap, nbins=300, deltaL=1, Lmax=200, color_pow=0.25):
 #    H, xedges, yedges = np.histogram2d(x, y, bins=(100, 20), weights=param)
-    minCl = np.min(samples) / 1.04
-    if minCl > 0: minCl = 0
-    maxCl = np.max(samples) * 1.04
+    minCl = min(0, np.min(samples) * 1.04)
+    maxCl = max(0, np.max(samples) * 1.04)
     delta = (maxCl - minCl) / (nbins - 1)
-    nL = (Lmax - 1) / deltaL
+    nL = (Lmax - 1) // deltaL
     sums = np.zeros((nL, nbins))
     psums = np.zeros((nL, nbins))
 
@@ -80,7 +79,7 @@ def CLdensity(samples, param, scalarMap, nbins=300, deltaL=1, Lmax=200, color_po
     for i in range(nL):
             for j in range(nbins):
                 colorVal[j, i, :] = scalarMap.to_rgba(psums[i, j], sums[i, j] ** color_pow)
-    im = plt.imshow(colorVal, origin='lower', aspect='auto', extent=[2, Lmax, 0, maxCl])
+    im = plt.imshow(colorVal, origin='lower', aspect='auto', extent=[2, Lmax, minCl, maxCl])
     im.set_interpolation('bicubic')
 
 
-- 
2.43.0


From 2cf57887bc99b83d864ead6268a2b107ccf2e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 131/165] fix: density plot of dumped spectra ignores lpow and
 delta_to

---
 python/chainDumpPlot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/chainDumpPlot.py b/python/chainDumpPlot.py
index 38c79df..a7fb49f 100644
--- a/python/chainDumpPlot.py
+++ b/python/chainDumpPlot.py
@@ -137,9 +137,11 @@ def rainbowDensityPlot(ls, pars, cls, parname, lpow=2, delta_to=None, Lmax=200,
 
     parvals = np.array([par.parWithName(parname).best_fit for par in pars])
     scalarMap, cNorm = last_colors or getColorMap(parvals)
+    sc = (ls * (ls + 1.)) ** (lpow / 2. - 1)
     samples = np.zeros((len(cls), Lmax - 1))
     for i, cl in enumerate(cls):
-        samples[i, :] = cl[:Lmax - 1]
+        if delta_to is not None: cl = cl - delta_to
+        samples[i, :] = (cl * sc)[:Lmax - 1]
     CLdensity(samples, parvals, scalarMap, Lmax=Lmax, color_pow=color_pow)
     setLabels(scalarMap, cNorm, pars[0].parWithName(parname))
     return scalarMap, cNorm
-- 
2.43.0


From 4b2502825a241c4ab690d4bab6a4f0edca70f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 132/165] fix: makeLatex fails if a requested parameter is not
 in the results

---
 python/makeLatex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/makeLatex.py b/python/makeLatex.py
index 7b14cd1..09c9442 100644
--- a/python/makeLatex.py
+++ b/python/makeLatex.py
@@ -27,6 +27,7 @@ def makeSnippetFiles(outdir, rootname, params, texs, tag=None):
     """ make separate tex file for each parameter, e.g. for inclusion in paper """
     base = os.path.splitext(os.path.basename(rootname))[0]
     for param, tex in zip(params, texs):
+        if tex is None: continue
         fname = base + '-' + param
         if tag is not None: fname += '_' + tag
         with open(os.path.join(outdir, fname + '.tex'), 'w') as f:
@@ -54,6 +55,7 @@ if __name__ == "__main__":
         makeSnippetFiles(args.tex_snippet_dir , args.rootname, params, texs, tag='sig' + str(args.limit))
     else:
         for label, value in zip(labels, texs):
+            if value is None: continue
             if args.tabular:
                 if value != '---':
                     print(("$ {0:<33}$ & $ {1:<33}$\\\\".format(label, value)))
-- 
2.43.0


From ab3ca55b85228fed06208738d1e87b761de1197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 133/165] fix: tex snippets are named after part of the root if
 it has dots

---
 python/makeLatex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/makeLatex.py b/python/makeLatex.py
index 09c9442..5635cdc 100644
--- a/python/makeLatex.py
+++ b/python/makeLatex.py
@@ -25,7 +25,7 @@ def margeParamTex(rootname, params=None, limit=1, paramNameFile=None):
 
 def makeSnippetFiles(outdir, rootname, params, texs, tag=None):
     """ make separate tex file for each parameter, e.g. for inclusion in paper """
-    base = os.path.splitext(os.path.basename(rootname))[0]
+    base = os.path.basename(rootname).replace('.margestats', '')
     for param, tex in zip(params, texs):
         if tex is None: continue
         fname = base + '-' + param
-- 
2.43.0


From 297852f7a3a68130667fc47c5c78f2aa67879931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 134/165] fix: foreground spectra fail if a temperature
 component follows one with polarization

---
 python/planck/plik_postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/plik_postprocess.py b/python/planck/plik_postprocess.py
index a77673a..7c26eac 100644
--- a/python/planck/plik_postprocess.py
+++ b/python/planck/plik_postprocess.py
@@ -64,7 +64,7 @@ def main_fgfile(argv):
             pes[:, :res.shape[1], :res.shape[1]] += res
             res = pes
         else:
-            res = res + pes
+            res[:, :pes.shape[1], :pes.shape[1]] += pes
 
     if res.shape[1] != 6:
 
-- 
2.43.0


From e1213a9a0e64dbe9fb2ef52a7126c8baf2370e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 135/165] fix: last parameter is duplicated when adding
 foregrounds to runs without chi2 parameters, and chains of one row fail

---
 python/planck/plik_postprocess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/planck/plik_postprocess.py b/python/planck/plik_postprocess.py
index 7c26eac..059270a 100644
--- a/python/planck/plik_postprocess.py
+++ b/python/planck/plik_postprocess.py
@@ -122,9 +122,11 @@ def main_fg2000(argv, tag=''):
     f = open(nchainparfile, "w")
     for i, l in enumerate(ls):
         if re.search("^chi2_", l):
+            ib = i
             break
         print(l.rstrip(), file=f)
-    ib = i
+    else:
+        ib = len(ls)
     print("f2000_143*\tf_{2000}^{143}", file=f)
     print("f2000_x*\tf_{2000}^{143\\times217}", file=f)
     print("f2000_217*\tf_{2000}^{217}", file=f)
@@ -184,7 +186,7 @@ def main_fg2000(argv, tag=''):
         f.close()
 
     for chain in chains:
-        ch = nm.loadtxt(chain)
+        ch = nm.loadtxt(chain, ndmin=2)
         nmm = chain.split("_")
         if tag:
             nchain = "_".join(nmm[:-1] + [tag.replace('_', ''), nmm[-1]])
-- 
2.43.0


From c8b25e2a04b81584b8a61314524ec78ef59264fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 136/165] fix: python plik likelihood uses floats as array
 sizes and indices

---
 python/planck/CMB_plik.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/planck/CMB_plik.py b/python/planck/CMB_plik.py
index 0aeca61..3f32b46 100644
--- a/python/planck/CMB_plik.py
+++ b/python/planck/CMB_plik.py
@@ -46,7 +46,7 @@ class plik_likelihood(object):
         self.mb = self.fi["clik/lkl_0/m_channel_P"] * self.hascl[2]
         self.m = self.mt + self.me + self.mb
 
-        self.nb = self.fi["clik/lkl_0/nbins"] / self.hascl.sum()
+        self.nb = self.fi["clik/lkl_0/nbins"] // self.hascl.sum()
         self.rq_shape = (self.nb, self.m, self.m)
 
         # binning details
@@ -278,9 +278,10 @@ class plik_likelihood(object):
     def coadded_TT(self, dict, want_cov=True):
         ls, coadded, covinv = self.coadd_spectra(dict)
         ls = ls[0, :]
-        TT = np.zeros(ls[-1] + 1)
+        lmin, lmax = int(round(ls[0])), int(round(ls[-1]))
+        TT = np.zeros(lmax + 1)
         fac = ls * (ls + 1) / (2 * np.pi)
-        TT[ls[0]:] = coadded[0, :] * fac
+        TT[lmin:] = coadded[0, :] * fac
         if want_cov:
             cov = np.linalg.inv(covinv)[:len(ls), :len(ls)]
             for i in range(cov.shape[0]):
-- 
2.43.0


From 27fb8c6fdfbc8ff8041094145b7f182a82c50796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:50 +0000
Subject: [PATCH 137/165] fix: gaussian smoothing shifts by half a sample, and
 changes the length of short arrays

---
 python/planck/smoothing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/planck/smoothing.py b/python/planck/smoothing.py
index e91b62b..6d8d455 100644
--- a/python/planck/smoothing.py
+++ b/python/planck/smoothing.py
@@ -7,9 +7,10 @@ def_smooth = 40
 
 
 def gaussian_smooth_1d(data, smooth=def_smooth, nsigma=5):
-    win = signal.gaussian(nsigma * smooth, std=smooth)
-    res = np.convolve(data, win, mode='same')
-    return res / np.convolve(np.ones(data.shape), win, mode='same')
+    half = nsigma * smooth // 2
+    win = signal.windows.gaussian(2 * half + 1, std=smooth)
+    res = np.convolve(data, win)[half:-half]
+    return res / np.convolve(np.ones(data.shape), win)[half:-half]
 
 
 def smoothed_cov(cov, smooth=def_smooth):
-- 
2.43.0


From 17c0f7e494671b0a61be768a905b2a1ff6dd1258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:32 +0000
Subject: [PATCH 138/165] fix: .ini inside directory or file names is removed
 when submitting jobs

---
 python/paramgrid/jobqueue.py | 2 +-
 python/runMPI.py             | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index ce515fd..66e0ca4 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -257,7 +257,7 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
     if kwargs.get('dryrun', False) or paramFiles is None: return
 
     if isinstance(paramFiles, six.string_types): paramFiles = [paramFiles]
-    paramFiles = [ini.replace('.ini', '') for ini in paramFiles]
+    paramFiles = [re.sub(r'\.ini$', '', ini) for ini in paramFiles]
 
     j.runsPerJob = (len(paramFiles), 1)[sequential]
     # adjust omp for the actual number (may not be equal to input runsPerJob because of non-integer multiple)
diff --git a/python/runMPI.py b/python/runMPI.py
index 51ea967..f704e7d 100644
--- a/python/runMPI.py
+++ b/python/runMPI.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 import os
+import re
 from paramgrid import batchjob_args, jobqueue
 
 
@@ -12,6 +13,6 @@ jobqueue.addArguments(parser)
 
 args = parser.parse_args()
 
-ini = [ini.replace('.ini', '') for ini in args.iniFile]
+ini = [re.sub(r'\.ini$', '', ini) for ini in args.iniFile]
 
 jobqueue.submitJob(os.path.basename(ini[0]), ini, msg=True, **args.__dict__)
-- 
2.43.0


From 5206ef90f68bc3a176ef24c764a716397ad9c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:32 +0000
Subject: [PATCH 139/165] fix: plik foregrounds fail for grids with other runs
 in a directory with plik in its name

---
 python/planck/plikParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/plikParams.py b/python/planck/plikParams.py
index 24a8432..bc9434d 100644
--- a/python/planck/plikParams.py
+++ b/python/planck/plikParams.py
@@ -18,7 +18,7 @@ for jobItem in Opts.filteredBatchItems():
     if args.finished and not jobItem.chainFinished(): continue
     name = jobItem.chainRoot + '.paramnames'
     properties = jobItem.propertiesIni()
-    if 'plik' in name and os.path.exists(name) and not properties.bool('plik_foregrounds', False):
+    if 'plik' in jobItem.name and os.path.exists(name) and not properties.bool('plik_foregrounds', False):
 
         ini = inifile.IniFile(jobItem.chainRoot + '.inputparams')
         dat = ini.string('clik_data_plik', '')
-- 
2.43.0


From 651b34e904ee3096ff0e20fae07e6f69ac42c2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:51 +0000
Subject: [PATCH 140/165] fix: .ini inside the path of a grid is removed by
 runbatch

---
 python/runbatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index 429bd7e..7340863 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -78,7 +78,7 @@ def jobName():
 
 def submitJob(ini):
     global iniFiles
-    ini = ini.replace('.ini', '')
+    if ini.endswith('.ini'): ini = ini[:-4]
     if not args.dryrun:
         print('Submitting...' + ini)
     else:
-- 
2.43.0


From d3c698465965bb86886c16c5e9b821e36f56c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:37 +0000
Subject: [PATCH 141/165] fix: DES data conversion to text failed in Python 3

---
 python/planck/DES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/DES.py b/python/planck/DES.py
index 45b4796..04327df 100644
--- a/python/planck/DES.py
+++ b/python/planck/DES.py
@@ -648,7 +648,7 @@ def convert_txt(filename, root, outdir, ranges=None):
         for x, y in pairs:
             out_ranges += ['%s %s %s %s %s' % (tp, x, y, ranges[tp][x - 1][y - 1][0], ranges[tp][x - 1][y - 1][1])]
         # drop theta value, as assuming shared to all data
-        dat = np.asarray(zip(*[hdulist[tp].data[n] for n in list(hdulist[tp].data.names)[:-2]]))
+        dat = np.asarray(list(zip(*[hdulist[tp].data[n] for n in list(hdulist[tp].data.names)[:-2]])))
         # fix anomaly that z bins are 1 based but theta bins zero based
         dat[:, 2] += 1
         np.savetxt(outdir + root + '_%s.dat' % tp, dat, fmt=['%u', '%u', '%u', '%.8e'],
-- 
2.43.0


From 3d838452e5b03722926056afba089c5e0a174bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:31 +0000
Subject: [PATCH 142/165] fix: makePlots output tag was ignored for 2D and
 triangle plots

---
 python/makePlots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index 5e45c13..61d07fc 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -53,9 +53,9 @@ def comparePlot(jobItems):
 
 tp = ''
 if args.data is not None and len(args.data) == 1 and args.compare_alldata is not None: tp = '_' + args.data[0] + tp
-if args.outtag is not None: tp = '_' + args.outtag + tp
 if args.D2_param is not None: tp = '_' + args.D2_param + '_2D'
 if args.tri_params is not None: tp = '_tri'
+if args.outtag is not None: tp = '_' + args.outtag + tp
 
 if args.compare_replacing is not None:
     if args.data is None:
-- 
2.43.0


From fda80f66f86f29f548f3a7fecbb8bf968248f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:07 +0000
Subject: [PATCH 143/165] fix: makePlots failed comparing with
 importance-sampled or other-parameter chains not run, and found no chains for
 parameter tags not in sorted order

---
 python/makePlots.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index 61d07fc..595caf2 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -106,8 +106,9 @@ for paramtag, parambatch in items:
                 print('plotting: ' + jobItem.name)
                 roots = [jobItem.name]
                 for imp in jobItem.importanceItems:
-                    if len(args.compare_importance) == 0 or imp.importanceTag in args.compare_importance: roots.append(
-                        imp.name)
+                    if imp.chainExists() and (
+                            len(args.compare_importance) == 0 or imp.importanceTag in args.compare_importance):
+                        roots.append(imp.name)
                 doplot(roots)
                 for ext in args.outputs: g.export(outdir + jobItem.name + tp + '.' + ext)
     elif args.compare_paramtag is not None:
@@ -115,9 +116,10 @@ for paramtag, parambatch in items:
             if not jobItem.paramtag in args.compare_paramtag:
                 output = jobItem.name + '-vs-' + "-".join(args.compare_paramtag)
                 print('plotting: ' + output)
-                roots = [batch.normed_name_item(tag + '_' + jobItem.normed_data, wantImportance=True) for tag in
-                         args.compare_paramtag]
-                roots = [jobItem.name] + [root.name for root in roots if root is not None]
+                tags = [tag.split('_') for tag in args.compare_paramtag]
+                roots = [batch.normed_name_item('_'.join(tag[:1] + sorted(tag[1:]) + [jobItem.normed_data]),
+                                                wantImportance=True) for tag in tags]
+                roots = [jobItem.name] + [root.name for root in roots if root is not None and root.chainExists()]
                 if len(roots) > 1:
                     doplot(roots)
                     for ext in args.outputs: g.export(outdir + output + tp + '.' + ext)
-- 
2.43.0


From f45dfe77b6b5795c4aad0b974fea83601d97964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:35 +0000
Subject: [PATCH 144/165] fix: scale fonts up to the maximum axis size with the
 same rule

---
 python/getdist/plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index c78b2f2..dd45e4b 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -255,7 +255,9 @@ class GetDistPlotSettings(_BaseObject):
             else:
                 return max(5, var + self.scaling_factor * (ax_size - self.scaling_reference_size))
         else:
-            return var + 2 * (self.scaling_max_axis_size - self.scaling_reference_size)
+            if self.direct_scaling:
+                return var * self.scaling_max_axis_size / self.scaling_reference_size
+            return var + self.scaling_factor * (self.scaling_max_axis_size - self.scaling_reference_size)
 
     def scaled_linewidth(self, ax_size, linewidth):
         linewidth = linewidth or self.linewidth
-- 
2.43.0


From 66603f77b2d14804ef2a5518c4162e58dfa16cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:35 +0000
Subject: [PATCH 145/165] fix: expand all parameters matching a pattern in a
 list of plot parameters

---
 python/getdist/plots.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index dd45e4b..18ebf47 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1803,10 +1803,12 @@ class GetDistPlotter(_BaseObject):
                 renames = mergeRenames(renames, renames_from_param_info)
             else:
                 renames = renames_from_param_info
-            params_names = [getattr(param, "name", param) for param in params]
-            old = [(old if isinstance(old, ParamInfo) else ParamInfo(old)) for old in params]
-            return [new or old for new, old in zip(names.parsWithNames(params_names,
-                                                                       error=error, renames=renames), old)]
+            res = []
+            for param, err in zip(params, error):
+                # patterns can match any number of parameters
+                matches = names.parsWithNames(getattr(param, "name", param), error=err, renames=renames)
+                res += [new or param for new in matches]
+            return res
 
     def _check_param(self, root, param, renames=None):
         """
-- 
2.43.0


From 962f4f79e212d802eee575d0a497622fe4b67da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:35 +0000
Subject: [PATCH 146/165] fix: find axes by parameters also for plots not made
 as numbered subplots

---
 python/getdist/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 18ebf47..7edab61 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2229,8 +2229,8 @@ class GetDistPlotter(_BaseObject):
                         self.subplots[0, 0] = ax
                 else:
                     ax = self._subplot_number(0)
-        if pars is not None and ax is not None:
-            ax.getdist_pars = pars
+        if pars is not None and ax is not None and not hasattr(ax, 'getdist_params'):
+            ax.getdist_params = pars
         return ax
 
     def _subplot(self, x, y, pars=None, **kwargs):
-- 
2.43.0


From dfd47b1792877e43bc1a188885ea5fa5fb118fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:35 +0000
Subject: [PATCH 147/165] fix: line_offset for legends of contours

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 7edab61..c37b206 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1898,7 +1898,7 @@ class GetDistPlotter(_BaseObject):
                 args.pop('filled', None)
                 lines.append(matplotlib.lines.Line2D([0, 1], [0, 1], **args))
         else:
-            lines = self.contours_added
+            lines = self.contours_added[line_offset:]
         args = kwargs.copy()
         args['ncol'] = legend_ncol
         args['prop'] = {'size': self._scaled_fontsize(fontsize or self.settings.legend_fontsize
-- 
2.43.0


From 9e1cd3e128db986262fec3536b1f5ac8afb5eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:35 +0000
Subject: [PATCH 148/165] fix: right align the legend text of all columns

---
 python/getdist/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index c37b206..ab0ebe8 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1945,10 +1945,10 @@ class GetDistPlotter(_BaseObject):
             args['frameon'] = self.settings.legend_frame and not colored_text
             self.legend = self.get_axes(ax).legend(lines, legend_labels, loc=legend_loc, **args)
         if align_right:
-            vp = self.legend._legend_box._children[-1]._children[0]
-            for c in vp._children:
-                c._children.reverse()
-            vp.align = "right"
+            for vp in self.legend._legend_box._children[-1]._children:
+                for c in vp._children:
+                    c._children.reverse()
+                vp.align = "right"
         if not self.settings.legend_rect_border:
             for rect in self.legend.get_patches():
                 rect.set_edgecolor(rect.get_facecolor())
-- 
2.43.0


From 24925b98bb2c3cb28c7eb9845c57b5f4f569f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:29 +0000
Subject: [PATCH 149/165] fix: keep all given parameter renames when looking up
 a ParamInfo to plot

---
 python/getdist/plots.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index ab0ebe8..e851fa7 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1826,10 +1826,8 @@ class GetDistPlotter(_BaseObject):
         if isinstance(param, ParamInfo):
             name = param.name
             if hasattr(param, 'renames'):
-                if renames:
-                    renames = {name: makeList(renames.get(name, [])) + list(param.renames)}
-                else:
-                    renames = {name: list(param.renames)}
+                renames = dict(renames or {})
+                renames[name] = makeList(renames.get(name, [])) + list(param.renames)
         else:
             name = param
         # NB: If a parameter is not found, errors only if param is a ParamInfo instance
-- 
2.43.0


From b5005646801af8cbcb58a0447a694950d4167bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:25 +0000
Subject: [PATCH 150/165] fix: do not draw the points of another parameter when
 a parameter is not in the samples

---
 python/getdist/plots.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index e851fa7..c882114 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -2804,7 +2804,10 @@ class GetDistPlotter(_BaseObject):
             if hasattr(param, 'getDerived'):
                 samples.append(param.getDerived(self._make_param_object(names, pts)))
             else:
-                samples.append(pts[:, names.numberOfName(param.name)])
+                ix = names.numberOfName(param.name)
+                if ix == -1:
+                    raise GetDistPlotError('Parameter not found: ' + param.name)
+                samples.append(pts[:, ix])
         fixed_color = kwargs.get('fixed_color')  # if actually just a plain scatter plot
         if mcsamples:
             # use most samples, but alpha with weight
-- 
2.43.0


From 4c06435e54358ed136ea93991e148028609fd7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:25 +0000
Subject: [PATCH 151/165] fix: no tick labels on the right when not showing
 probability ticks

---
 python/getdist/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index c882114..38a1b55 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1626,6 +1626,8 @@ class GetDistPlotter(_BaseObject):
             ax.set_ylabel(lab, fontsize=self._scaled_fontsize(self.settings.axes_labelsize))
         if no_ytick or not self.settings.prob_y_ticks:
             ax.tick_params(left=False, labelleft=False)
+            if lab and not no_ylabel and label_right:
+                ax.tick_params(right=False, labelright=False)
         elif no_ylabel:
             self._no_y_ticklabels(ax)
         elif no_zero and not normalized:
-- 
2.43.0


From cbad70b522eb7abbe1dbb8eba509dd7716e7852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:25 +0000
Subject: [PATCH 152/165] fix: use parameter renames as given when plotting
 named parameters

---
 python/getdist/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 38a1b55..ccb1618 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1802,7 +1802,8 @@ class GetDistPlotter(_BaseObject):
             renames_from_param_info = {param.name: getattr(param, "renames", [])
                                        for i, param in enumerate(params) if is_param_info[i]}
             if renames:
-                renames = mergeRenames(renames, renames_from_param_info)
+                if renames_from_param_info:
+                    renames = mergeRenames(renames, renames_from_param_info)
             else:
                 renames = renames_from_param_info
             res = []
-- 
2.43.0


From 74027ef1dbc422c30dba3e6d5466b38a4bd2eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:25 +0000
Subject: [PATCH 153/165] fix: do not change given analysis settings on reset,
 or keep settings from before

---
 python/getdist/plots.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index ccb1618..7ae187c 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -408,6 +408,7 @@ class MCSampleAnalysis(_BaseObject):
         self.chain_dirs = []
         self.chain_locations = []
         self.ini = None
+        self.grid_params = {}
         self.chain_settings_have_priority = True
         if chain_locations is not None:
             if isinstance(chain_locations, str) or not isinstance(chain_locations, Iterable):
@@ -435,10 +436,9 @@ class MCSampleAnalysis(_BaseObject):
             # should instead set custom settings in the grid setting file
             if hasattr(batch, 'commonPath') and os.path.exists(batch.commonPath + 'getdist_common.ini'):
                 batchini = IniFile(batch.commonPath + 'getdist_common.ini')
+                self.grid_params.update(batchini.params)
                 if self.ini:
                     self.ini.params.update(batchini.params)
-                else:
-                    self.ini = batchini
         elif get_chain_root_files(chain_dir):
             self.chain_dirs.append(chain_dir)
         else:
@@ -454,16 +454,15 @@ class MCSampleAnalysis(_BaseObject):
         """
         self.analysis_settings = {}
         if isinstance(settings, IniFile):
-            ini = settings
+            ini = copy.deepcopy(settings)
         elif isinstance(settings, Mapping):
             ini = IniFile(getdist.default_getdist_settings)
             ini.params.update(settings)
         else:
             ini = IniFile(settings or getdist.default_getdist_settings)
-        if self.ini:
-            self.ini.params.update(ini.params)
-        else:
-            self.ini = ini
+        for key, value in self.grid_params.items():
+            ini.params.setdefault(key, value)
+        self.ini = ini
         self.mcsamples = {}
         # Dicts. 1st key is root; 2nd key is param
         self.densities_1D = dict()
-- 
2.43.0


From c3a6f72aaf566bd2b13803b0356c4e1193657d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:21 +0000
Subject: [PATCH 154/165] fix: filters of skipped importance runs made the runs
 of the same data duplicates, and could be lost with them

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 147a30c..314f609 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -483,7 +483,7 @@ class batchJob(propertiesItem):
         if hasattr(settings, 'importance_filters'):
             for job in self.jobItems:
                 for item in job.importanceJobs():
-                    item.makeImportance(settings.importance_filters)
+                    if not item.name in self.skip: item.makeImportance(settings.importance_filters)
                 job.makeImportance(settings.importance_filters)
 
         for item in list(self.items()):
-- 
2.43.0


From 956572c8aa4c669a91840793e6eedc3b0baf2b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:21 +0000
Subject: [PATCH 155/165] fix: makeTables did not find the reference of
 --changes_from_datatag if its data were given in another order

---
 python/makeTables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/makeTables.py b/python/makeTables.py
index 93e74f4..a1d38e9 100644
--- a/python/makeTables.py
+++ b/python/makeTables.py
@@ -254,7 +254,8 @@ for limit in limits:
             referenceDataJobItem = None
             if args.changes_from_datatag is not None:
                 for jobItem in theseItems:
-                    if jobItem.normed_data == args.changes_from_datatag or jobItem.datatag == args.changes_from_datatag:
+                    if (jobItem.normed_data == batch.normalizeDataTag(args.changes_from_datatag)
+                            or jobItem.datatag == args.changes_from_datatag):
                         referenceDataJobItem = copy.deepcopy(jobItem)
                         referenceDataJobItem.loadJobItemResults(paramNameFile=args.paramNameFile,
                                                                 bestfit=args.bestfitonly)
-- 
2.43.0


From e0f48ef771c947514fdb3a0d39e2c7bad1617d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:34 +0000
Subject: [PATCH 156/165] fix: makePlots --compare_importance failed on chains
 of skipped importance runs

---
 python/makePlots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/makePlots.py b/python/makePlots.py
index 595caf2..c162730 100644
--- a/python/makePlots.py
+++ b/python/makePlots.py
@@ -106,7 +106,7 @@ for paramtag, parambatch in items:
                 print('plotting: ' + jobItem.name)
                 roots = [jobItem.name]
                 for imp in jobItem.importanceItems:
-                    if imp.chainExists() and (
+                    if imp.name not in batch.skip and imp.chainExists() and (
                             len(args.compare_importance) == 0 or imp.importanceTag in args.compare_importance):
                         roots.append(imp.name)
                 doplot(roots)
-- 
2.43.0


From 3f8cfccf3ee66d82d8479bc31e80b6470d30038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:41 +0000
Subject: [PATCH 157/165] fix: a filter job equal to an importance job could
 remove it with the other filters of that job

---
 python/paramgrid/batchjob.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 314f609..7ec4ed4 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -491,11 +491,12 @@ class batchJob(propertiesItem):
                 if self.has_normed_name(x.normed_name):
                     if messages: print('replacing importance sampling run with full run: ' + x.name)
                     item.removeImportance(x)
-        for item in list(self.items()):
-            for x in [imp for imp in item.importanceJobsRecursive()]:
-                if self.has_normed_name(x.normed_name, wantImportance=True, exclude=x):
-                    if messages: print('removing duplicate importance sampling run: ' + x.name)
-                    item.removeImportance(x)
+        # of duplicates remove those without jobs of their own first, so that no other combination is lost with them
+        for item, x in sorted([(item, imp) for item in self.items() for imp in item.importanceJobsRecursive()],
+                              key=lambda jobs: len(jobs[1].importanceItems) > 0):
+            if self.has_normed_name(x.normed_name, wantImportance=True, exclude=x):
+                if messages: print('removing duplicate importance sampling run: ' + x.name)
+                item.removeImportance(x)
 
     def items(self, wantSubItems=True, wantImportance=False):
         for item in self.jobItems:
-- 
2.43.0


From c4eee4e541441cafe912eabf5302657344b9a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 158/165] fix: MCSamples with ignore_rows stored it in the
 settings dictionary of the caller

---
 python/getdist/mcsamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 4edef6b..aecb8d9 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -212,9 +212,7 @@ class MCSamples(Chains):
         self.rootdirname = ""
         self.indep_thin = 0
         if 'ignore_rows' in kwargs:
-            if settings is None:
-                settings = {}
-            settings['ignore_rows'] = kwargs['ignore_rows']
+            settings = dict(settings or {}, ignore_rows=kwargs['ignore_rows'])
         self.ignore_rows = float(kwargs.get('ignore_rows', 0))
         # Do not remove burn-in for nested sampler samples
         if self.sampler == "nested" and not np.isclose(self.ignore_rows, 0):
-- 
2.43.0


From af007a9b19430dc61b814329c60759de69983b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 159/165] fix: makeSingleSamples failed writing samples without
 log likelihoods

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index aecb8d9..8df720d 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -530,11 +530,12 @@ class MCSamples(Chains):
         rand = random_state.random(self.numrows)
 
         if filename:
+            loglikes = self.loglikes if self.loglikes is not None else np.zeros(self.numrows)
             with open(filename, 'w', encoding='utf-8') as f:
                 for i, r in enumerate(rand):
                     if r <= self.weights[i] / self.max_mult / single_thin:
                         f.write("%16.7E" % 1.0)
-                        f.write("%16.7E" % (self.loglikes[i]))
+                        f.write("%16.7E" % (loglikes[i]))
                         for j in range(self.n):
                             f.write("%16.7E" % (self.samples[i][j]))
                         f.write("\n")
-- 
2.43.0


From 0daeb4c502f0a198296994cf25167f2894ccbd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 160/165] fix: loadMCSamples failed for chains in the current
 directory without a cache directory

---
 python/getdist/mcsamples.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 8df720d..2d8f86b 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -70,8 +70,6 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         path = cache_dir
     else:
         cache_name = name
-    if not os.path.exists(path):
-        os.mkdir(path)
     cachefile = os.path.join(path, cache_name) + '.py_mcsamples'
     samples = MCSamples(file_root, jobItem=jobItem, ini=ini, settings=settings)
     if os.path.isfile(file_root + '.paramnames'):
-- 
2.43.0


From 6e75d43f41ff4d7fb26c5585109bc226b48f22f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 161/165] fix: get_subplot_plotter ignored rc_sizes without
 width_inch

---
 python/getdist/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 7ae187c..3d784b1 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -722,8 +722,8 @@ class GetDistPlotter(_BaseObject):
             plotter.settings.scaling = scaling
         if width_inch:
             plotter.settings.fig_width_inch = width_inch
-            if not kwargs.get('settings') and rc_sizes:
-                plotter.settings.rc_sizes()
+        if not kwargs.get('settings') and rc_sizes:
+            plotter.settings.rc_sizes()
         return plotter
 
     def __del__(self):
-- 
2.43.0


From 130fe78dbecac777d7b1719a3cffd54cd5ecf136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 162/165] fix: copyGridFiles made a zip file of any target path
 containing .zip

---
 python/copyGridFiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 1a06ae0..60d2165 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -33,7 +33,7 @@ Opts.parser.add_argument('--zip', action='store_true',
 
 (batch, args) = Opts.parseForBatch()
 
-if '.zip' in args.target_dir: args.zip = True
+if args.target_dir.endswith('.zip'): args.zip = True
 if args.max_age_days:
     max_age = datetime.now() - timedelta(days=args.max_age_days)
 
-- 
2.43.0


From 3d5ed0e0df009e523deb6271a49024336e793cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 163/165] fix: getSeparateChains left out rows with tiny
 weights that min_weight_ratio kept

---
 python/getdist/chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index e402457..443d1f3 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1509,7 +1509,8 @@ class Chains(WeightedSamples):
         else:
             for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
                 chainlist.append(WeightedSamples(samples=self.samples[off1:off2], weights=self.weights[off1:off2],
-                                                 loglikes=slice_or_none(self.loglikes, off1, off2)))
+                                                 loglikes=slice_or_none(self.loglikes, off1, off2),
+                                                 min_weight_ratio=-1))
         return chainlist
 
     def removeBurnFraction(self, ignore_frac):
-- 
2.43.0


From d917609d27d2ad9386f45137092a4cdb03ee9660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 164/165] fix: makeTables --systematic_average ignored the
 analysis settings of the jobs

---
 python/makeTables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/makeTables.py b/python/makeTables.py
index a1d38e9..7f26055 100644
--- a/python/makeTables.py
+++ b/python/makeTables.py
@@ -86,8 +86,10 @@ def getTableLines(content, referenceDataJobItem=None):
 def getSystematicAverageTableLines(jobItem1, jobItem2):
     # if you have two versions of the likelihood with the same data, and don't know which is right,
     # this just crudely adds the samples with equal weight per likelihood
-    samps1 = loadMCSamples(jobItem1.chainRoot, jobItem=jobItem1, settings=batch.getdist_options)
-    samps2 = loadMCSamples(jobItem2.chainRoot, jobItem=jobItem2, settings=batch.getdist_options)
+    samps1 = loadMCSamples(jobItem1.chainRoot, jobItem=jobItem1,
+                           settings=dict(batch.getdist_options, **jobItem1.dist_settings))
+    samps2 = loadMCSamples(jobItem2.chainRoot, jobItem=jobItem2,
+                           settings=dict(batch.getdist_options, **jobItem2.dist_settings))
     samps = samps1.getCombinedSamplesWithSamples(samps2)
     return getTableLines(samps.getMargeStats())
 
-- 
2.43.0


From 3b7bd830b333f539679077979d294f791118a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 165/165] fix: marginalized supernova likelihood with only a
 magnitude covariance failed without precompute_covmats

---
 python/planck/SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/planck/SN.py b/python/planck/SN.py
index b712ea0..7b36d04 100644
--- a/python/planck/SN.py
+++ b/python/planck/SN.py
@@ -180,7 +180,7 @@ class SN_likelihood(object):
                 for i, (alpha, beta) in enumerate(zip(self.alpha_grid, self.beta_grid)):
                     self.invcovs[i] = self.inverse_covariance_matrix(alpha, beta)
 
-        elif not self.alphabeta_covmat:
+        if not self.alphabeta_covmat:
             self.inverse_covariance_matrix()
 
     def _read_covmat(self, filename):
-- 
2.43.0

