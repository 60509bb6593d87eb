From 68ac7b258c0efb8dfeb1665e9c39a95bdc1914d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 01/48] fix: Thai: treat the start of the text as a word
 beginning when reordering e/o vowels

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index e6e4b2a..55c7051 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2178,7 +2178,7 @@ def ThaiDigraphConjuncts(Strng,reverse=False):
     #Replace \s with all punctuations
     if not reverse:
         # Comments
-        Strng = re.sub("(?<=\s)("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
+        Strng = re.sub("(?<!\S)("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
         Strng = re.sub("("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+yrlvh+")",r"\3\1\2\4",Strng)
         Strng = re.sub("("+sh+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
     else:
-- 
2.43.0


From a004cda6c00905586836a2827f5dba125672561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 02/48] fix: Dives Akuru: read the repha as ra + virama, not
 virama + ra

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 55c7051..e6205b6 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -1465,7 +1465,7 @@ def FixDivesAkuru(Strng,reverse=False):
         # Reverse : Replace Explicit Virama + Cons -> Subjoining Virama + Cons
         Strng = re.sub('\U00011940', vir +ya, Strng)
         # Reverse : Introduce Repha : ra + sub Virama + Cons -> Cons + Repha
-        Strng = re.sub('\U00011941', vir +ra, Strng)
+        Strng = re.sub('\U00011941', ra +vir, Strng)
 
 
     return Strng
-- 
2.43.0


From 713fc0c4688ec4a1e30321641acb5df1c450aecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 03/48] fix: Tham: read mai kang lai back wherever it stands

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index e6205b6..168b9fc 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -3301,7 +3301,7 @@ def FixTaiTham(Strng,reverse=False):
     else:
         AA = 'ᩣ'
         Strng = Strng.replace('ᩔ', 'ᩈ᩠ᩈ') ## Reverse great sa
-        Strng = re.sub('('+ListC+')'+'\u1A58',r'\1' + ng,Strng) # Reverse: Kai mang Lai -> ng + virama
+        Strng = Strng.replace('\u1A58', ng) # Reverse: Kai mang Lai -> ng + virama
         Strng = Strng.replace('\u1A60',vir) # Regular Virama for Transliteration
         Strng = Strng.replace("ᩤ", AA) # Reverse Tall A
 
-- 
2.43.0


From a68785b4bf8913508d6c54f1c322edc9ad53bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 04/48] fix: Ahom: read au in a closed syllable and anusvara
 after e back

---
 aksharamukha/ConvertFix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 168b9fc..5f7a1b5 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -3522,11 +3522,11 @@ def FixAhom(Strng, reverse = False):
         anu = Ahom.AyogavahaMap[1]
 
         #reverse closed syllable e
-        Strng = re.sub(anu + '\U00011727' + '(?!\U00011728)', '\U00011726\U00011727\U0001172A', Strng)
+        Strng = re.sub('\U00011726?' + anu + '\U00011727' + '(?!\U00011728)', '\U00011726\U00011727\U0001172A', Strng)
         Strng = re.sub('(\U00011726)(.)('+vir+')', '\U00011726\U00011727'+r'\2\3', Strng)
 
         #rever closed syllable o
-        Strng = re.sub('(\U00011728)(.)('+vir+')', '\U00011726\U00011721'+r'\2\3', Strng)
+        Strng = re.sub('(?<!\U00011727)(\U00011728)(.)('+vir+')', '\U00011726\U00011721'+r'\2\3', Strng)
 
         Strng = Strng.replace(anu + '\U00011728', '\U00011726\U00011721\U0001172A')
 
-- 
2.43.0


From 876db74246fd24594723d579c6625cb6ca218158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:00 +0000
Subject: [PATCH 05/48] fix: convert Indic scripts in one pass, so that scripts
 sharing characters do not convert a letter twice

---
 aksharamukha/Convert.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 9a1cf43..20dde8e 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -209,13 +209,10 @@ def convertScript(Strng,Source,Target):
 
         #print(Strng)
 
-        # Perform replacement sequentially for each character group
-        for x,y in charPairs:
-            # print(x,y)
-            Strng = Strng.replace(x,y)
-            # print(Strng)
-
-        # print(Strng)
+        # Replace in a single pass (longest first): the scripts may share characters, and a
+        # character already converted must not be converted once again
+        charMap = dict(reversed(charPairs))
+        Strng = re.sub('|'.join(re.escape(x) for x, y in charPairs), lambda m: charMap[m.group()], Strng)
 
         #Strng = Strng.replace(GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0])
         # Apply Fixes on the Output based on the Script
-- 
2.43.0


From a1dc824a264b93da9bf297745236b48cc5620a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 06/48] fix: Thai: read a prefixed vowel back after a conjunct
 of three letters

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 5f7a1b5..4cee1d5 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2183,7 +2183,7 @@ def ThaiDigraphConjuncts(Strng,reverse=False):
         Strng = re.sub("("+sh+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
     else:
         ## Reverse the above.
-        Strng = re.sub("(["+EAIO+"])"+"("+vir+")"+"("+cons+")",r"\2\3\1",Strng)
+        Strng = re.sub("(["+EAIO+"])"+"((?:"+vir+"(?:"+cons+"))+)",r"\2\1",Strng)
 
     return Strng
 
-- 
2.43.0


From a2daacc6844d568cde30f3332329031e88e7746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 07/48] fix: SLP1: write dha (Q) after a consonant without
 mistaking it for a nukta

---
 aksharamukha/ScriptMap/Roman/SLP1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ScriptMap/Roman/SLP1.py b/aksharamukha/ScriptMap/Roman/SLP1.py
index ffba148..cbaf8e0 100644
--- a/aksharamukha/ScriptMap/Roman/SLP1.py
+++ b/aksharamukha/ScriptMap/Roman/SLP1.py
@@ -120,7 +120,7 @@ SinhalaConsonantMap =[
                       ]
 
 NuktaMap = [
-           '\u0051'
+           '\u02BD\u02BD'
            ]
 
 OmMap = [
-- 
2.43.0


From d223e53b470c25d71f7a9faa276386cf708e851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 08/48] fix: Latin schemes: keep an avagraha written with an
 apostrophe apart from an udatta before it

---
 aksharamukha/PreProcess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 581697b..8c15d52 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1391,12 +1391,12 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
 
     #Fix Udata + Avagraha combination
     # नमो॑ऽयम् --> namo̍​'yam
-    if Source in GM.IndicScripts and Target in GM.Transliteration:
+    if Source in GM.IndicScripts and Target in GM.LatinScripts and Target != 'RomanColloquial':
         udatta = '\u0951'
         avagrahaSrc = GM.CrunchList('SignMap', Source)[0]
         avagrahaTgt = GM.CrunchList('SignMap', Target)[0]
 
-        if avagrahaTgt == "'":
+        if avagrahaTgt.rstrip('\u02BD') == "'":
             Strng = Strng.replace(udatta + avagrahaSrc, udatta + '\u200B' + avagrahaSrc)
 
     return Strng
-- 
2.43.0


From 89c37cf640f16f799f91509389f72fbd26d677d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 09/48] fix: Aksharaa: do not take the apostrophe of a letter
 for the avagraha of the source script

---
 aksharamukha/Convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 20dde8e..0259ef0 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -268,8 +268,8 @@ def convertScript(Strng,Source,Target):
         # for all other transformations
         else:
             # Perform replacement sequentially for each character group
-            #print(Strng)
-            for x,y in charPairs:
+            # (ASCII punctuation of the source first: the romanized letters may contain it)
+            for x,y in sorted(charPairs, key=lambda pair: not ''.join(pair).isascii()):
                 Strng = Strng.replace(x,y)
 
 
-- 
2.43.0


From b428354dab718ed9050876d8d85d7eb8b2e161f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 10/48] fix: ITRANS: read a syllable ^oM as short o + anusvara,
 not as ^ and om

---
 aksharamukha/Convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 0259ef0..5c7d80e 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -75,7 +75,8 @@ def convertScript(Strng,Source,Target):
 
         Strng = CF.VedicSvarasLatinIndic(Strng, Source)
 
-        punc =  '(' + '|'.join(["\u005C"+x for x in list(string.punctuation)]+ ['\s']
+        punc =  '(' + '|'.join(["\u005C"+x for x in list(string.punctuation)
+                              if not (Source == 'Itrans' and x == '^')]+ ['\s']
                     + [x.replace('.', '\.') for x in GM.CrunchSymbols(GM.Signs,Source)[1:3]]) + ')'
 
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
-- 
2.43.0


From 7e75d8aa5abbc04aad386c54b708a3b5156499b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 11/48] fix: Russian Cyrillic: do not read the letters with a
 macron below as anudatta

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 4cee1d5..dee3dd0 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -150,7 +150,7 @@ def VedicSvarasCyrillic(Strng, Target):
 def VedicSvarasNonDiacritic(Strng):
     Strng = Strng.replace('̍', '\\\'')
     Strng = Strng.replace('̎', '\\"')
-    Strng = Strng.replace('̱', '\\_')
+    Strng = re.sub('(?<![лнр])̱', r'\\_', Strng) # Cyrillic л̱ н̱ р̱ are letters
     Strng = Strng.replace('gͫ̄', '\\m++')
     Strng = Strng.replace('gͫ', '\\m+')
 
-- 
2.43.0


From 989b807bd04276d7e888d8a98d1f8f7f6b728812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 12/48] fix: Baraha: read ~e back (alternative ~a), do not
 print Tamil text

---
 aksharamukha/PreProcess.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 8c15d52..985ec03 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1333,14 +1333,13 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
     if Source == 'BarahaNorth' or Source == 'BarahaSouth':
         # alternate representations
 
-        alt_baraha = [('A', 'aa'), ('I', 'ee'), ('U', 'oo'), ('~loo', '~lU'), ('Roo', 'RU'), ('ou', 'au'), ('K', 'kh'), ('G','gh'), ('ch', 'c'), ('Ch', 'C'), ('J','jh'), ('P', 'ph'), ('B', 'bh'), ('w', 'v'), ('sh', 'S'), ('~h', '_h'), ('Y', 'yx'), ('^^', '{}'), ('^', '()'), ('tx', 'rx'), ('zh', 'Lx'), ('~e', '~a'), ('q', '\_'), ('#', "\\'"), ('$', '\\"')]
+        alt_baraha = [('A', 'aa'), ('I', 'ee'), ('U', 'oo'), ('~loo', '~lU'), ('Roo', 'RU'), ('ou', 'au'), ('K', 'kh'), ('G','gh'), ('ch', 'c'), ('Ch', 'C'), ('J','jh'), ('P', 'ph'), ('B', 'bh'), ('w', 'v'), ('sh', 'S'), ('~h', '_h'), ('Y', 'yx'), ('^^', '{}'), ('^', '()'), ('tx', 'rx'), ('zh', 'Lx'), ('~a', '~e'), ('q', '\_'), ('#', "\\'"), ('$', '\\"')]
 
         for alt, norm in alt_baraha:
             Strng = Strng.replace(alt, norm)
 
         if Target == 'Tamil':
             Strng = Strng.replace('n', 'nx').replace('~nx', 'n')
-            print(Strng)
 
     if 'IAST' in Source:
         Strng = Strng.replace("aï", "a_i")
-- 
2.43.0


From 10ad13a85cb8d3a50b11b1fee632782a2731dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 13/48] fix: OriyaSubojinedVa: correct the malformed regular
 expression

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 985ec03..495dc4f 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -139,7 +139,7 @@ def BalineseMoveRepha(Strng):
     return BalineseJavaneseMoveRepha(Strng, 'Balinese', 'ᬃ')
 
 def OriyaSubojinedVa(Strng):
-    Strng = re.sub('(??<![ମବ])(୍ବ)', '୍ୱ', Strng)
+    Strng = re.sub('(?<![ମବ])(୍ବ)', '୍ୱ', Strng)
 
     return Strng
 
-- 
2.43.0


From 44c5bdf145f064c1ec0eb794bdeb6a10762693dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 14/48] fix: removeZW: replace the joiners with nothing instead
 of raising TypeError

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 495dc4f..ce5a1ce 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1666,7 +1666,7 @@ def normalize(Strng,Source):
 
 # Remove ZWJ/ZWNJ characters
 def removeZW(Strng):
-    Strng = Strng.replace("\u200C").replace("\u200D")
+    Strng = Strng.replace("\u200C", "").replace("\u200D", "")
 
     return Strng
 
-- 
2.43.0


From c9aceef48bfee8e0b7839134a5bde08830761162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 15/48] fix: IPAIndic: return the text

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index ce5a1ce..76a83bc 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1790,4 +1790,4 @@ def IPAIndic(Strng):
     Strng = Strng.replace("ʊ","u")
     Strng = Strng.replace("ɛ","e")
 
-    return
+    return Strng
-- 
2.43.0


From 7bf9c515a5784be95e1f7f296b174a2cb395df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 16/48] fix: TaiThamMoveNnga: return the text, not a debugging
 word

---
 aksharamukha/PostProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 2c0d907..0e5799d 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -3467,7 +3467,7 @@ def TaiThamHighNga(Strng):
 def TaiThamMoveNnga(Strng):
     Strng = re.sub('(.)(\u1A58)',r'\2\1',Strng) # Probably its u1A59
 
-    return "Vinodh"
+    return Strng
 
 def UrduRemoveShortVowels(Strng):
     ShortVowels = ['\u0652','\u064E','\u0650','\u064F', '\u0658']
-- 
2.43.0


From 8f506cdb8e8e7949d8536ea403f4df5fe3c11766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 17/48] fix: PersianDMG: supply the missing PersianDMGSource,
 so that it can be a source

---
 aksharamukha/PostProcess.py | 4 ++++
 aksharamukha/PreProcess.py  | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 0e5799d..c60c60a 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -210,6 +210,10 @@ def PersianDMGSBLSource(Strng):
 
     return Strng
 
+def PersianDMGSource(Strng):
+
+    return Strng
+
 #testcase todo
 def ISO233Target(Strng):
     replacements = [('j', 'ǧ'), ('g', 'ǧ'), ('ḧ', 'ẗ'), ('ḫ', 'ẖ'), ('a̮', 'ỳ'), ('ˀ', 'ˈ'), \
diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 76a83bc..ae5bcb2 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1421,6 +1421,14 @@ def PersianDMGTarget(Strng):
 
     return Strng
 
+def PersianDMGSource(Strng):
+    replacements = [('ḏ', 'ẕ'), ('ḍ', 'ż'), ('ṯ', 's̱'), ('ṯ', 's\\_'), ('j', 'ǧ'), ('ʔ', 'ʼ')]
+
+    for x, y in replacements:
+        Strng = Strng.replace(y, x)
+
+    return Strng
+
 def ISO233Source(Strng):
     replacements = [('أ', 'ˈʾ'), ('ء', '¦'), ('إ', 'ˌʾ')]
 
-- 
2.43.0


From bd0ec340d1b53d5f1b7565188ac5fd58ed7b3dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 18/48] fix: RomanLoC: Batak has no LoC table, so use ISO like
 other scripts without one instead of failing

---
 aksharamukha/GeneralMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/GeneralMap.py b/aksharamukha/GeneralMap.py
index bc19824..895405b 100644
--- a/aksharamukha/GeneralMap.py
+++ b/aksharamukha/GeneralMap.py
@@ -215,7 +215,7 @@ romanNumeralScripts = ['Tamil', 'Gurmukhi', 'Malayalam', 'Telugu']
 romanPunctscripts = ['Tamil', 'Kannada', 'Malayalam', 'Telugu', 'Gujarati']
 
 ## List of supported LoC scripts
-LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'BatakKaro', 'BatakManda','BatakPakpak','BatakSima','BatakToba','Gurmukhi', 'Tibetan', 'Limbu']
+LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'Gurmukhi', 'Tibetan', 'Limbu']
 
 #Modified Src Input Map for LoC script
 #speicalpostpre process
-- 
2.43.0


From 5216b0b2f3fb439691c849dcf807e27a380916fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 19/48] fix: indicDandas: do not look up the dandas of Semitic
 source scripts, which have no sign table

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 400eb15..c02b478 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -408,7 +408,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
     if 'indicDandas' in postoptions:
         if src in GeneralMap.pipeScripts and '|' in txt:
             txt = PreProcess.RetainPipeDanda(txt, src)
-        elif GeneralMap.CrunchList('SignMap', src)[1] == '।':
+        elif '।' in GeneralMap.CrunchList('SignMap', src)[1:2]:
             preoptions = preoptions + ['RetainDevangariDanda']
         else:
             if tgt not in GeneralMap.Transliteration:
-- 
2.43.0


From fc15c3f824ed50d4c8522b2bf82972bb1749737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 20/48] fix: romanFullStop: leave text in Semitic scripts,
 which have no sign table, as it is

---
 aksharamukha/PostProcess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index c60c60a..fdd1267 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -2892,6 +2892,9 @@ def tbadiff(Strng,Target):
 def RetainDandasIndic(Strng, Target, reverse=False):
     Dandas = GM.CrunchList('SignMap', Target)[1:3]
 
+    if len(Dandas) < 2: # no sign table, e.g. Semitic scripts or Kana
+        return Strng
+
     if not reverse:
         Strng = Strng.replace('..', Dandas[1])
         Strng = Strng.replace('.', Dandas[0])
-- 
2.43.0


From 49cc8320d31274499fe8a3c6b2ceb57b89c59af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 21/48] fix: additive numerals (Kharoshthi, Old Persian)
 convert each number on its own, and numbers of any size get an answer

---
 aksharamukha/ConvertFix.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index dee3dd0..76b20ad 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2258,19 +2258,19 @@ def OldPersianNumeral(Strng,reverse=False):
     Twenty = '\U000103D4'
     Hundred = '\U000103D5'
 
-    Numbers = sorted(map(int,re.findall("\d+", Strng)),reverse=True)
+    def perNum(digits):
+        num = int(digits)
+        hN = int(num / 100)
+        tW = int((num - (hN*100)) / 20)
+        tN = int((num - (hN*100) - (tW*20)) /10)
+        t2 = int((num - (hN*100) - (tW*20) - (tN*10)) /2)
+        n1 = int(num - (hN*100) - (tW*20) - (tN*10) - (t2*2))
 
-    if not reverse:
-        for num in Numbers:
-            hN = int(num / 100)
-            tW = int((num - (hN*100)) / 20)
-            tN = int((num - (hN*100) - (tW*20)) /10)
-            t2 = int((num - (hN*100) - (tW*20) - (tN*10)) /2)
-            n1 = int(num - (hN*100) - (tW*20) - (tN*10) - (t2*2))
-
-            perNum = (Hundred*hN) + (Twenty*tW) + (Ten*tN) + (Two*t2) + (One*n1)
+        return (Hundred*hN) + (Twenty*tW) + (Ten*tN) + (Two*t2) + (One*n1)
 
-            Strng = Strng.replace(str(num),perNum)
+    if not reverse:
+        # numbers beyond six digits have no numeral: one sign would stand for each hundred
+        Strng = re.sub('(?<![0-9])[0-9]{1,6}(?![0-9])', lambda m: perNum(m.group(0)), Strng)
     else:
         Strng = Strng.replace(One, '1#')
         Strng = Strng.replace(Two, '2#')
@@ -2281,11 +2281,9 @@ def OldPersianNumeral(Strng,reverse=False):
     return Strng
 
 def KharoshthiNumerals(Strng, reverse=False):
-    Numbers = sorted(map(int,re.findall("\d+", Strng)),reverse=True)
-
     if not reverse:
-        for num in Numbers:
-             Strng = Strng.replace(str(num),kharoshthiNumber(num))
+        # numbers beyond fifteen digits are left as they are
+        Strng = re.sub('(?<![0-9])[0-9]{1,15}(?![0-9])', lambda m: kharoshthiNumber(m.group(0)), Strng)
     else:
         one = '𐩀'
         two = '𐩁'
-- 
2.43.0


From 0e3b76ace4fdcbbffd9d6621e2a7238f7413ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 22/48] fix: Warang Citi clusters of three and more letters
 keep all their joiners

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 76b20ad..77494cc 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2483,7 +2483,7 @@ def FixWarangCiti(Strng, reverse = False):
     ListV = "(" + "|".join(GM.CrunchSymbols(GM.Vowels, 'WarangCiti') + ['\u200D']) + ')'
 
     if not reverse:
-        Strng = re.sub(ListC + ListC, r'\1' + '\u200D' + r'\2', Strng)
+        Strng = re.sub(ListC + '(?=' + ListC + ')', r'\1' + '\u200D', Strng)
 
         # Remove the inherent vowel
         Strng = re.sub(ListC + '(\U000118C1\U000118D9\u02BE)', r'\1' + '\u00BD', Strng)
-- 
2.43.0


From 2763bcb65faebcd2e79ba8f9e6ff2498e1e4f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 23/48] fix: files are told apart by their extension, not by
 '.txt' or the like anywhere in the path

---
 aksharamukha/transliterate_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 1e5e978..1437613 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -10,11 +10,12 @@ MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/
 
 def process(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_api_mode=False):
     if os.path.isfile(file):
-        if '.txt' in file:
+        ext = os.path.splitext(file)[1]
+        if ext == '.txt':
             convert_txt(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.docx' in file:
+        elif ext == '.docx':
             convert_docx(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.htm' in file:
+        elif ext in ('.htm', '.html'):
             convert_html(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
         else:
             warnings.warn('Only .txt, .html, .docx formats are supported for file conversion. Input file not processed.')
-- 
2.43.0


From 4038d41043881aa79cfde18d6111df8e9d025001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 24/48] fix: a text file whose conversion fails leaves no empty
 file behind (and keeps an earlier result)

---
 aksharamukha/transliterate_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 1437613..a3894c3 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -26,11 +26,13 @@ def convert_txt(src, tgt, file, nativize=True, pre_options=[], post_options=[],
     with open(file, 'r', encoding='utf8') as f:
         txt = f.read()
 
+    new_txt = convert(src, tgt, txt, nativize, pre_options, post_options)
+
     file_parts = os.path.splitext(file)
     new_file = file_parts[0] + '_' + src + tgt + file_parts[1]
 
     with open(new_file, 'w', encoding='utf8') as f:
-        f.write(convert(src, tgt, txt, nativize, pre_options, post_options))
+        f.write(new_txt)
 
     print('The following file has been created: ' + new_file)
 
-- 
2.43.0


From b4c86f79c6c4ff26759a24ae170dd1b036b71670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 25/48] fix: converting a text file keeps its line ends

---
 aksharamukha/transliterate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index a3894c3..560612f 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -23,7 +23,7 @@ def process(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_a
         warnings.warn('Not a file. Please pass a file as an argument')
 
 def convert_txt(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_api_mode=False):
-    with open(file, 'r', encoding='utf8') as f:
+    with open(file, 'r', encoding='utf8', newline='') as f:
         txt = f.read()
 
     new_txt = convert(src, tgt, txt, nativize, pre_options, post_options)
@@ -31,7 +31,7 @@ def convert_txt(src, tgt, file, nativize=True, pre_options=[], post_options=[],
     file_parts = os.path.splitext(file)
     new_file = file_parts[0] + '_' + src + tgt + file_parts[1]
 
-    with open(new_file, 'w', encoding='utf8') as f:
+    with open(new_file, 'w', encoding='utf8', newline='') as f:
         f.write(new_txt)
 
     print('The following file has been created: ' + new_file)
-- 
2.43.0


From 5f7db55d7b18256bcb1f353aedb42b8b95bcaeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 26/48] fix: web pages keep comments, doctype, scripts and
 styles, which are not text

---
 aksharamukha/transliterate_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 560612f..b92a1e9 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -4,6 +4,7 @@ import os
 from lxml import etree
 from zipfile import ZipFile
 from bs4 import BeautifulSoup
+from bs4.element import PreformattedString, Script, Stylesheet
 import warnings
 
 MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/main}t"
@@ -46,6 +47,10 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
     soup = BeautifulSoup(html)
 
     for node in soup.findAll(text=True):
+        # comments, doctypes, scripts and styles are not part of the text
+        if isinstance(node, (PreformattedString, Script, Stylesheet)):
+            continue
+
         new_node = node.replace(node.string, convert(src, tgt, node.string, nativize, pre_options, post_options))
         node.replace_with(new_node)
 
-- 
2.43.0


From 4dadcc6b5355f67940ec5902de8c749bc0992632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 27/48] fix: web pages are written as they are, without white
 space put into the text

---
 aksharamukha/transliterate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index b92a1e9..cd67a98 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -55,13 +55,13 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
         node.replace_with(new_node)
 
     if is_api_mode:
-        return soup.prettify()
+        return str(soup)
     else:
         file_parts = os.path.splitext(file)
         new_file = file_parts[0] + '_' + src + tgt + file_parts[1]
 
         with open(new_file, 'w', encoding='utf8') as f:
-            f.write(soup.prettify())
+            f.write(str(soup))
 
         print('The following file has been created: ' + new_file)
 
-- 
2.43.0


From 7cda2674beb71ca5e45ca694aaeb640fa8ce9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 28/48] fix: Word documents with empty text runs can be
 converted

---
 aksharamukha/transliterate_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index cd67a98..938cdfc 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -103,7 +103,7 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
     with old_archive.open(item, 'r') as xml_file:
         tree = etree.parse(xml_file)
         for element in tree.getroot().iter():
-            if element.tag == MS_WORD_TEXT_SCHEMA:
+            if element.tag == MS_WORD_TEXT_SCHEMA and element.text:
                 element.text = convert(data['source'],
                                        data['target'],
                                        element.text,
-- 
2.43.0


From 5fccb70c27a6f47474ed6a9ecb1e842326f4c5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 29/48] fix: Word documents: pre-processing and post-processing
 options are not mixed up

---
 aksharamukha/transliterate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 938cdfc..0817fe5 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -108,8 +108,8 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
                                        data['target'],
                                        element.text,
                                        data['nativize'],
-                                       data['post_options'],
-                                       data['pre_options'])
+                                       data['pre_options'],
+                                       data['post_options'])
 
         string = etree.tostring(tree.getroot(),
                                 xml_declaration=True,
-- 
2.43.0


From 93032394935a101d3821e63d38e68cf925af134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 30/48] fix: Grantha Grantamil reads its own nukta letters rra,
 rrha, yya back (text is normalised to their composed forms)

---
 aksharamukha/ScriptMap/MainIndic/GranthaGrantamil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/ScriptMap/MainIndic/GranthaGrantamil.py b/aksharamukha/ScriptMap/MainIndic/GranthaGrantamil.py
index cdb7a23..e1844c2 100644
--- a/aksharamukha/ScriptMap/MainIndic/GranthaGrantamil.py
+++ b/aksharamukha/ScriptMap/MainIndic/GranthaGrantamil.py
@@ -126,10 +126,10 @@ NuktaConsonantMap =  [
                      u'\u0996\u09BC',
                      u'\u0997\u09BC',
                      u'\u099C\u09BC',
-                     u'\u09A1\u09BC',
-                     u'\u09A2\u09BC',
+                     u'\u09DC',
+                     u'\u09DD',
                      u'\u09AB\u09BC',
-                     u'\u09AF\u09BC'
+                     u'\u09DF'
                      ]
 
 SinhalaConsonantMap =[
-- 
2.43.0


From b729713358bc1105e30f878cb98c7165277616bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 31/48] fix: language codes after the first one of a script
 (hin, mr, ben, ...) are found

---
 aksharamukha/transliterate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index c02b478..7920e60 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -644,7 +644,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
         # get the popuation of each language of the script
         if 'lang' in data_loaded[scrpt].keys():
             lang_tag = data_loaded[scrpt]['lang'].split(',')[0]
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             population = 0
             lang = ''
@@ -741,7 +741,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
     # iterate through the yaml file
     for scrpt in data_loaded.keys():
         if 'lang' in data_loaded[scrpt].keys():
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             lang = ''
 
-- 
2.43.0


From 86090f782b6559916b7baf490ddb3b456641b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 32/48] fix: autodetect with script and language codes applies
 the same detected options as with script names

---
 aksharamukha/transliterate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 7920e60..df2e340 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -701,7 +701,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
 
     if src_tag == 'autodetect':
         src = [(0, auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -826,7 +826,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
     if src_tag == 'autodetect':
         src = [(0,auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
-- 
2.43.0


From 5605f9f2087993cd689c0d0b763f246760d40713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 33/48] fix: autodetect with language names works (the script
 detected was taken for a language)

---
 aksharamukha/transliterate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index df2e340..a06ac69 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -851,8 +851,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
 def process_lang_name(src_name, tgt_name, txt, nativize, post_options, pre_options):
     if src_name == 'autodetect':
-        src = auto_detect(txt)
-        pre_options = detect_preoptions(txt, src)
+        src = src_name
     else:
         src = str(langcodes.find(src_name))
 
-- 
2.43.0


From 1ef66b85b981abd843428042dd27097b11e9939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 34/48] fix: autodetect of a text without any named character
 (e.g. empty) gives an answer

---
 aksharamukha/transliterate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index a06ac69..137bdf4 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -77,6 +77,9 @@ def auto_detect(text, plugin = False):
         else:
             script = ''
 
+    if script == '':
+        return 'Zyyy' # undetermined
+
     inputScript = script[0].upper() + script[1:]
 
     laoPali = ['ຆ', 'ຉ', 'ຌ', 'ຎ', 'ຏ', 'ຐ', 'ຑ', 'ຒ', 'ຓ', 'ຘ', 'ຠ', 'ຨ', 'ຩ', 'ຬ', '຺']
-- 
2.43.0


From 2427a6063982b93b92cc8b9b0a9f02d9aed43cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 35/48] fix: autodetect of Myanmar texts starting with a line
 break or another nameless character

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 137bdf4..0b5b3c1 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -107,7 +107,7 @@ def auto_detect(text, plugin = False):
             try:
                 char = unicodedata.name(uchar).lower()
             except:
-                pass
+                char = ''
             if 'shan' in char:
                 countSub['Shan'] += 1
             elif 'tai laing' in char:
-- 
2.43.0


From 7d9197b256799ef2bfb5329177f6847c85688c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 36/48] fix: autodetect knows Masaram Gondi, Gunjala Gondi and
 Hanifi Rohingya

---
 aksharamukha/transliterate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 0b5b3c1..4af7956 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -128,6 +128,12 @@ def auto_detect(text, plugin = False):
 
     elif inputScript == 'Meetei':
         inputScript = 'MeeteiMayek'
+    elif inputScript == 'Masaram':
+        inputScript = 'MasaramGondi'
+    elif inputScript == 'Gunjala':
+        inputScript = 'GunjalaGondi'
+    elif inputScript == 'Hanifi':
+        inputScript = 'HanifiRohingya'
     elif inputScript == 'Dives':
         inputScript = 'DivesAkuru'
     elif inputScript == 'Persian':
-- 
2.43.0


From e5e8ea1f09cf92a36f1268ff181af0f8997c28a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 37/48] fix: Malayalam anusvara for nasals of consecutive
 conjuncts

---
 aksharamukha/PostProcess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index fdd1267..1cabcf0 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -2764,6 +2764,7 @@ def MalayalamAnusvaraNasal(Strng):
 
     for i in range(len(ListNAnu)):
         Strng = re.sub(ListCAll + GM.VedicSvaras + '(?<!' + vir + ')'+'(?<![' + ".".join(Chillus) + '])(?<!' + vir +')' + '('+ListNAnu[i]+')'+'('+vir+')'+'('+ListCAnu[i]+')',r'\1\2'+Anu+r'\5',Strng)
+        Strng = re.sub(ListCAll + GM.VedicSvaras + '(?<!' + vir + ')'+'(?<![' + ".".join(Chillus) + '])(?<!' + vir +')' + '('+ListNAnu[i]+')'+'('+vir+')'+'('+ListCAnu[i]+')',r'\1\2'+Anu+r'\5',Strng)
 
     return Strng
 
-- 
2.43.0


From acfe43e5d60c2e10be74bc7c33fd46fbe070884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 38/48] fix: numeral options with RemoveDiacritics for Tamil
 (the option list was used up)

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 4af7956..c06a7ea 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -525,7 +525,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
 
     if 'RemoveDiacritics' in postoptions:
       if tgt == 'Tamil':
-        postoptions = map(lambda x: 'RemoveDiacriticsTamil' if x == 'RemoveDiacritics' else x, postoptions)
+        postoptions = list(map(lambda x: 'RemoveDiacriticsTamil' if x == 'RemoveDiacritics' else x, postoptions))
 
     for options in postoptions:
       transliteration = getattr(PostProcess, options)(transliteration)
-- 
2.43.0


From f1d77378cdf3af05b132f9899cc202562ef33127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 39/48] fix: an option named exactly does not also switch on
 the one differing in letter case

---
 aksharamukha/transliterate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index c06a7ea..c6c6378 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -586,8 +586,8 @@ def convert_default(src, tgt, txt, nativize = True, post_options = [], pre_optio
     postOptionList = list(map(lambda x: x[0], getmembers(PostProcess, isfunction)))
     postOptionListLower = list(map(lambda x: x.lower(), postOptionList))
 
-    post_options = [option_id for option in post_options for option_id in postOptionList if option.lower() == option_id.lower()]
-    pre_options = [option_id for option in pre_options for option_id in preOptionList if option.lower() == option_id.lower()]
+    post_options = [option_id for option in post_options for option_id in postOptionList if option.lower() == option_id.lower() and (option == option_id or option not in postOptionList)]
+    pre_options = [option_id for option in pre_options for option_id in preOptionList if option.lower() == option_id.lower() and (option == option_id or option not in preOptionList)]
 
     # font hack warning
     font_hack_warning = tgt + ' uses an hacked font to display the script. In the absence of this font, you text may appear different. \n See: https://www.aksharamukha.com/describe/' + tgt + ' for the font used'
-- 
2.43.0


From e5afb076b0359b61d9f51ea42210275fc6a6f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 40/48] fix: JavaneseAvowels writes UU, vocalic RR and AU as a
 with their own vowel sign

---
 aksharamukha/PostProcess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 1cabcf0..4c92a2c 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -1889,8 +1889,9 @@ def JavaneseAvowels(Strng):
     vowelsA = ['ꦄꦶ', 'ꦄꦷ', 'ꦄꦸ', 'ꦄꦹ', 'ꦄꦽ', 'ꦄ꧀ꦉꦴ', 'ꦄ꧀ꦭꦼ', 'ꦄ꧀ꦭꦼꦴ', 'ꦄꦺ', 'ꦄꦻ', 'ꦄꦺꦴ', 'ꦄꦻꦴ']
     vowels = ['ꦆ', 'ꦇ', 'ꦈ', 'ꦈꦴ', 'ꦉ', 'ꦉꦴ', 'ꦊ', 'ꦋ', 'ꦌ', 'ꦍ', 'ꦎ', 'ꦎꦴ']
 
-    for v, vA in zip(vowels, vowelsA):
-        Strng = Strng.replace(v, vA)
+    ## long vowels contain the short ones: replace longest first, in one pass
+    aVowels = dict(zip(vowels, vowelsA))
+    Strng = re.sub('|'.join(sorted(vowels, key=len, reverse=True)), lambda m: aVowels[m.group(0)], Strng)
 
     return Strng
 
-- 
2.43.0


From f2caacdf0945b36e431614b43bb0ec8fdb5b89ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 41/48] fix: DivesAkuruAlternateIndVowels writes the vowel AI
 as y + AI sign instead of y + E sign twice

---
 aksharamukha/PostProcess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 4c92a2c..6fe3bef 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -1841,8 +1841,9 @@ def DivesAkuruAlternateIndVowels(Strng):
 
     # replace ind. vow with /y/
 
-    vow = "𑤀 𑤁 𑤂 𑤃 𑤄 𑤅 𑤆 𑤆𑤵 𑤉".split(" ")
-    vowy = "𑤥 𑤥𑤰 𑤥𑤱 𑤥𑤲 𑤥𑤳 𑤥𑤴 𑤥𑤵 𑤥𑤷 𑤥𑤸".split(" ")
+    ## AI contains E and so goes before it
+    vow = "𑤀 𑤁 𑤂 𑤃 𑤄 𑤅 𑤆𑤵 𑤆 𑤉".split(" ")
+    vowy = "𑤥 𑤥𑤰 𑤥𑤱 𑤥𑤲 𑤥𑤳 𑤥𑤴 𑤥𑤷 𑤥𑤵 𑤥𑤸".split(" ")
 
     for v, vy in zip(vow, vowy):
         Strng = Strng.replace(v, vy)
-- 
2.43.0


From de331d86e37cae7ce7348f4b69f12d8641b6e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 42/48] fix: moving a Balinese or Javanese repha behind its
 cluster keeps all consonants of the cluster and whole vowel signs

---
 aksharamukha/PostProcess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 6fe3bef..38d8c64 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -1927,11 +1927,11 @@ def BalineseArchaicJNA(Strng):
 def BalineseJavaneseMoveRepha(Strng, tgt, reph):
     repha = '(' + reph + ')'
 
-    cons = '(' + '|'.join(GM.CrunchSymbols(GM.Consonants, tgt)) + ')'
-    vows = '(' + '|'.join(GM.CrunchSymbols(GM.VowelSignsNV, tgt)) + ')'
+    cons = '(?:' + '|'.join(sorted(GM.CrunchSymbols(GM.Consonants, tgt), key=len, reverse=True)) + ')'
+    vows = '(?:' + '|'.join(sorted(GM.CrunchSymbols(GM.VowelSignsNV, tgt), key=len, reverse=True)) + ')'
     vir = GM.CrunchSymbols(GM.virama, tgt)[0]
 
-    Strng = re.sub(repha+'('+cons+')'+'('+ vir + cons +')*'+'(' + vows + ')?', r'\2\4\6\1', Strng)
+    Strng = re.sub(repha+'('+cons+'(?:'+ vir + cons +')*'+ vows + '?)', r'\2\1', Strng)
 
     candAnu = '[' + ''.join(GM.CrunchSymbols(GM.CombiningSigns, tgt)[:2]) + ']'
     Strng = re.sub(repha+'(' + candAnu + ')', r'\2\1', Strng)
-- 
2.43.0


From 85f347b9448747b34355d22e2b1f074d6815d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 43/48] fix: reading Balinese, Javanese and Kawi moved rephas
 keeps all consonants of the cluster and whole vowel signs

---
 aksharamukha/PreProcess.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index ae5bcb2..0110010 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -95,14 +95,14 @@ def TibetanLoCRomanLoCFix(Strng):
 def BalineseJavaneseMoveRepha(Strng, tgt, reph):
     repha = '(' + reph + ')'
 
-    cons = '(' + '|'.join(GM.CrunchSymbols(GM.Consonants, tgt)) + ')'
-    vows = '(' + '|'.join(GM.CrunchSymbols(GM.VowelSignsNV, tgt)) + ')'
+    cons = '(?:' + '|'.join(sorted(GM.CrunchSymbols(GM.Consonants, tgt), key=len, reverse=True)) + ')'
+    vows = '(?:' + '|'.join(sorted(GM.CrunchSymbols(GM.VowelSignsNV, tgt), key=len, reverse=True)) + ')'
     vir = GM.CrunchSymbols(GM.virama, tgt)[0]
 
     candAnu = '[' + ''.join(GM.CrunchSymbols(GM.CombiningSigns, tgt)[:2]) + ']'
     Strng = re.sub('(' + candAnu + ')' + repha, r'\2\1', Strng)
 
-    Strng = re.sub('('+cons+')'+'('+ vir + cons +')*'+'(' + vows + ')?'+ repha, r'\7\1\3\5', Strng)
+    Strng = re.sub('('+cons+'(?:'+ vir + cons +')*'+ vows + '?)'+ repha, r'\2\1', Strng)
 
     return Strng
 
@@ -125,7 +125,7 @@ def KawiMoveRepha(Strng):
     repha = '\U00011F02'
 
     cons = '(' + '|'.join(GM.CrunchSymbols(GM.Consonants + GM.Vowels, tgt)) + ')'
-    vows = '(' + '|'.join(GM.CrunchSymbols(GM.VowelSignsNV, tgt)) + ')'
+    vows = '(' + '|'.join(sorted(GM.CrunchSymbols(GM.VowelSignsNV, tgt), key=len, reverse=True)) + ')'
     vir = '\U00011F42'
 
     Strng = re.sub(repha + '(('+cons+')' + '('+ vir + cons +')*'+'(' + vows + ')?)', r'\1' + repha, Strng)
-- 
2.43.0


From 4d6c275ee9dd46710148a2ffa4ccbd0852d90b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 44/48] fix: GranthaPrakrit writes geminates in full at the
 beginning of a text as at the beginning of its other words

---
 aksharamukha/PostProcess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 38d8c64..9d185e2 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -2436,11 +2436,11 @@ def GranthaPrakrit(Strng):
     Strng = InsertGeminationSign(Strng, 'Grantha')
 
     ## not at the beginning of words
-    pat = r'\s𑌂.'
-    Strng = functools.reduce(lambda s, m: s.replace(m, ReverseGeminationSign(m, 'Grantha')), re.findall(pat, Strng), Strng)
+    pat = r'(?:^|\s)𑌂.'
+    Strng = re.sub(pat, lambda m: ReverseGeminationSign(m.group(0), 'Grantha'), Strng)
 
     pat = r'𑍍𑌂.'
-    Strng = functools.reduce(lambda s, m: s.replace(m, ReverseGeminationSign(m, 'Grantha')), re.findall(pat, Strng), Strng)
+    Strng = re.sub(pat, lambda m: ReverseGeminationSign(m.group(0), 'Grantha'), Strng)
 
     return Strng
     ## Insert Gemination Sign
-- 
2.43.0


From 23e347c43067a139e991a46771743806a61bdb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 45/48] fix: UrduAlternateUU replaces the letters instead of
 their escaped names

---
 aksharamukha/PostProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 9d185e2..fabf1cd 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -3100,7 +3100,7 @@ def SinhalaPali(Strng, reverse = False):
     return Strng
 
 def UrduAlternateUU(Strng):
-    Strng = Strng.replace("\\u064F\\u0648","\u0648\u0657")
+    Strng = Strng.replace("\u064F\u0648","\u0648\u0657")
 
     return Strng
 
-- 
2.43.0


From e202357c879f4dfcaadb7a97fbf8587b1a8e3c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 46/48] fix: ThamShiftMaiKangLai moves the sign behind vowel
 signs of several parts as a whole

---
 aksharamukha/PostProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index fabf1cd..536f6fd 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -3291,7 +3291,7 @@ def DograShaKha(Strng):
 
 def ThamShiftMaiKangLai(Strng):
     Strng = re.sub('(\u1A58)(.)', r'\2\1', Strng)
-    ListV = '(' + '|'.join(GM.CrunchSymbols(GM.VowelSigns,'TaiTham') + ['ᩤ']) + ')'
+    ListV = '(' + '|'.join(sorted(GM.CrunchSymbols(GM.VowelSigns,'TaiTham') + ['ᩤ'], key=len, reverse=True)) + ')'
 
     Strng = re.sub('(\u1A58)([\u1A55\u1A56])', r'\2\1', Strng)
     Strng = re.sub('(\u1A58)(\u1A60.)', r'\2\1', Strng)
-- 
2.43.0


From 83ebab821ce2e152a04b8234e66a887bbf370d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:43 +0000
Subject: [PATCH 47/48] fix: ContextualLLa keeps the na of word-initial nala

---
 aksharamukha/PostProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 536f6fd..f5d9ab3 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -1111,7 +1111,7 @@ def ContextualLLa(Strng):
     Strng = re.sub('(்ரவா|்ரவ|ர|பவ|வி|ரா|ஷ்க|த⁴வ)'+ 'ல', r'\1' +  'ள', Strng)
     Strng = re.sub('(யா|யாம|கோம)'+ 'ல', r'\1' +  'ள', Strng)
     Strng = re.sub('(மௌ)'+ 'ல', r'\1' +  'ள', Strng)
-    Strng = re.sub('([\s^])(ந)'+ 'ல', r'\1' +  'ள', Strng)
+    Strng = re.sub('(^|\s)(ந)'+ 'ல', r'\1\2' +  'ள', Strng)
     Strng = Strng.replace('கலத்ர', 'களத்ர')
     Strng = Strng.replace('ஶீதல', 'ஶீதள')
     Strng = Strng.replace('ஸுதல', 'ஸுதள')
-- 
2.43.0


From 882a0c31b5ec5e838a49fe7d3a270ade3f4f202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 48/48] fix: BengaliIntervocalicDDA also changes a letter right
 after one it changed

---
 aksharamukha/PostProcess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index f5d9ab3..3b76fa7 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -2673,6 +2673,7 @@ def BengaliIntervocalicDDA(Strng):
 
     for x, y in replacements:
         Strng = re.sub('('+ListC+')'+ GM.VedicSvaras + x,r'\1\2'+y,Strng)
+        Strng = re.sub('('+ListC+')'+ GM.VedicSvaras + x,r'\1\2'+y,Strng)
 
     return Strng
 
-- 
2.43.0

