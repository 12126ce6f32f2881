From b2aa07bb8378648353e7092c93800c6e8009dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 01/77] fix: MatrixGroup.trace() returned the trace of an
 earlier state of the group

The last trace was reused when y and theta were the same, even after
elements were appended, removed, flipped or modified, and even if z or
isBlocked of the ray were different.
---
 raytracing/matrixgroup.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 86c2323..1d1fb5e 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -430,16 +430,16 @@ class MatrixGroup(Matrix):
         if not isinstance(inputRay, (Ray, GaussianBeam)):
             raise TypeError("'inputRay' must be a Ray or a GaussianBeam {0}".format(inputRay))
         ray = inputRay
-        if ray != self._lastRayToBeTraced:
-            rayTrace = [ray]
-            for element in self.elements:
-                rayTraceInElement = element.trace(ray)
-                rayTrace.extend(rayTraceInElement)
-                ray = rayTraceInElement[-1]  # last
-            self._lastRayToBeTraced = inputRay
-            self._lastRayTrace = rayTrace
-        else:
-            rayTrace = self._lastRayTrace
+        rayTrace = [ray]
+        for element in self.elements:
+            rayTraceInElement = element.trace(ray)
+            rayTrace.extend(rayTraceInElement)
+            ray = rayTraceInElement[-1]  # last
+
+        # The elements (or the elements inside the elements) may have changed
+        # since the last trace: the result cannot be reused for the next call.
+        self._lastRayToBeTraced = inputRay
+        self._lastRayTrace = rayTrace
 
         return rayTrace
 
-- 
2.43.0


From 4daee87353917af4bc1a81795a7442c67019b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 02/77] fix: remove the shadowed duplicate definitions of
 catalogue lenses and of E_BAF11

Fourteen Thorlabs lenses and the glass E_BAF11 were defined twice: the
first class could not be used (its super() call refers to the second
one) but stayed listed by all() and __subclasses__() as long as the
garbage collector had not removed it.
---
 raytracing/materials.py |  14 --
 raytracing/thorlabs.py  | 448 ----------------------------------------
 2 files changed, 462 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 2c3440f..b35eb8c 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -307,20 +307,6 @@ class N_BAF10(Material):
     def abbeNumber(cls):
         return 47.11
 
-class E_BAF11(Material):
-    """ All data from https://refractiveindex.info/tmp/data/glass/hikari/E-BAF11.html """
-    @classmethod
-    def n(cls, wavelength):
-        if wavelength > 10 or wavelength < 0.01:
-            raise ValueError("Wavelength must be in microns")
-        x = wavelength
-        n=(2.71954649-0.0100472501*x**2+0.0200301385*x**-2+0.000465868302*x**-4-7.51633336e-06*x**-6+1.77544989e-06*x**-8)**.5
-        return n
-
-    @classmethod
-    def abbeNumber(cls):
-        return 46.48
-
 class N_BAK1(Material):
     """ All data from https://refractiveindex.info/tmp/data/glass/schott/N-BAK1.html """
     @classmethod
diff --git a/raytracing/thorlabs.py b/raytracing/thorlabs.py
index c787fad..5e00812 100644
--- a/raytracing/thorlabs.py
+++ b/raytracing/thorlabs.py
@@ -2,298 +2,6 @@ from .specialtylenses import *
 from .materials import *
 
 
-class ACN254_100_A(AchromatDoubletLens):
-    """ ACN254-100-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "-100.0"
-        "fb", "-103.6"
-        "R1", "-52.0"
-        "R2", "49.9"
-        "R3", "600.0"
-        "tc1", "2.0"
-        "tc2", "4.0"
-        "te", "7.7"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-    def __init__(self, wavelength=None):
-        super(ACN254_100_A,self).__init__(fa=-100.0,fb=-103.6, R1=-52.0, R2=49.9, R3=600.0, 
-                                    tc1=2.0, tc2=4.0, te=7.7, n1=None, mat1=N_BAK4, n2=None, mat2=SF5, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="ACN254-100-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-
-class ACN254_075_A(AchromatDoubletLens):
-    """ ACN254-075-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "-75.1"
-        "fb", "-78.8"
-        "R1", "-39.0"
-        "R2", "39.2"
-        "R3", "489.8"
-        "tc1", "2.0"
-        "tc2", "4.3"
-        "te", "8.6"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-    def __init__(self, wavelength=None):
-        super(ACN254_075_A, self).__init__(fa=-75.1,fb=-78.8, R1=-39.0, R2=39.2, R3=489.8,
-                                    tc1=2.0, tc2=4.3, te=8.6, n1=None, n2=None, mat1=N_BAK4, mat2=SF5, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="ACN254-075-A", wavelengthRef=0.5876, wavelength=wavelength)
-
-
-class ACN254_050_A(AchromatDoubletLens):
-    """ ACN254-050-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "-50.0"
-        "fb", "-53.2"
-        "R1", "-34.0"
-        "R2", "32.5"
-        "R3", "189.2"
-        "tc1", "2.0"
-        "tc2", "4.5"
-        "te", "9.4"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        super(ACN254_050_A, self).__init__(fa=-50.0, fb=-53.2, R1=-34.0, R2=32.5, R3=189.2,
-                                    tc1=2.0, tc2=4.5, te=9.4, n1=None, n2=None, mat1=N_BAF10, mat2=N_SF6HT, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="ACN254-050-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-class ACN254_040_A(AchromatDoubletLens):
-    """ ACN254-040-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "-40.1"
-        "fb", "-43.6"
-        "R1", "-27.1"
-        "R2", "27.1"
-        "R3", "189.2"
-        "tc1", "2.0"
-        "tc2", "5.0"
-        "te", "10.6"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        super(ACN254_040_A,self).__init__(fa=-40.1,fb=-43.6, R1=-27.1, R2=27.1, R3=189.2,
-                                    tc1=2.0, tc2=5.0, te=10.6, n1=None, n2=None, mat1=N_BAF10, mat2=N_SF11, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="ACN254-040-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-
-class AC254_030_A(AchromatDoubletLens):
-    """ AC254-030-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "30.0"
-        "fb", "22.2"
-        "R1", "20.89"
-        "R2", "-16.7"
-        "R3", "-79.8"
-        "tc1", "12"
-        "tc2", "2.0"
-        "te", "8.8"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        """
-        Notes
-        -----
-        As of May 31 2020, there is an error on the product web page at:
-        https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-        The expected back focal length is different from the reference PDF on
-        the same line which clearly states it should be 22.2.
-
-        We take the PDF ato be the true value
-        """
-
-        super(AC254_030_A, self).__init__(fa=30.0, fb=22.2, R1=20.89, R2=-16.7, R3=-79.8,
-                                    tc1=12, tc2=2.0, te=8.8, n1=None, n2=None, mat1=N_BAF10, mat2=N_SF6HT, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="AC254-030-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-class AC254_035_A(AchromatDoubletLens):
-    """AC254-035-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "35.2"
-        "fb", "27.3"
-        "R1", "24.0"
-        "R2", "-19.1"
-        "R3", "-102.1"
-        "tc1", "12"
-        "tc2", "2.0"
-        "te", "9.6"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC254_035_A, self).__init__(fa=35.2, fb=27.3, R1=24.0, R2=-19.1, R3=-102.1,
-                                    tc1=12, tc2=2.0, te=9.6, n1=None, n2=None, mat1=N_BAF10, mat2=N_SF6HT, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="AC254-035-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-class AC254_040_A(AchromatDoubletLens):
-    """ AC254-040-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "40.1"
-        "fb", "33.4"
-        "R1", "23.7"
-        "R2", "-20.1"
-        "R3", "-57.7"
-        "tc1", "10"
-        "tc2", "2.5"
-        "te", "7.4"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC254_040_A, self).__init__(fa=40.1,fb=33.4, R1=23.7, R2=-20.1, R3=-57.7,
-                                    tc1=10, tc2=2.5, te=7.4, n1=None, n2=None, mat1=N_BK7, mat2=SF5, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="AC254-040-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-class AC254_045_A(AchromatDoubletLens):
-    """ AC254-045-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "45.0"
-        "fb", "40.2"
-        "R1", "31.2"
-        "R2", "-25.9"
-        "R3", "-130.6"
-        "tc1", "7"
-        "tc2", "2.0"
-        "te", "5.7"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC254_045_A,self).__init__(fa=45.0, fb=40.2, R1=31.2, R2=-25.90, R3=-130.6,
-                                    tc1=7, tc2=2.0, te=5.7, n1=None, n2=None, mat1=N_BAF10, mat2=N_SF6HT, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="AC254-045-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-class AC254_050_A(AchromatDoubletLens):
-    """ AC254-050-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "50.2"
-        "fb", "43.4"
-        "R1", "33.3"
-        "R2", "-22.28"
-        "R3", "-291.07"
-        "tc1", "9"
-        "tc2", "2.5"
-        "te", "8.7"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC254_050_A, self).__init__(fa=50.2,fb=43.4, R1=33.3,R2=-22.28, R3=-291.07,
-                                    tc1=9, tc2=2.5, te=8.7, n1=None, n2=None, mat1=N_BAF10, mat2=N_SF10, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="AC254-050-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-
 class AC254_060_A(AchromatDoubletLens):
     """ AC254-060-A
 
@@ -643,162 +351,6 @@ class AC254_500_A(AchromatDoubletLens):
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
                                     label="AC254-500-A", wavelength=wavelength, wavelengthRef= 0.5876)
 
-class AC254_050_B(AchromatDoubletLens):
-    """ AC254-050-B
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "50.0"
-        "fb", "45.0"
-        "R1", "33.55"
-        "R2", "-27.05"
-        "R3", "-125.60"
-        "tc1", "7.5"
-        "tc2", "1.8"
-        "te", "6.2"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "706.5 nm, 855 nm, and 1015 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC254_050_B,self).__init__(fa=50.0,fb=45.0, R1=33.55,R2=-27.05, R3=-125.60, 
-                                    tc1=7.5, tc2=1.8, te=6.2, n1=None, mat1=N_LAK22, n2=None, mat2=N_SF6HT, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259',
-                                    label="AC254-050-B", wavelength=wavelength, wavelengthRef=0.5876)
-
-
-class AC508_075_B(AchromatDoubletLens):
-    """ AC508-075-B
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "75.0"
-        "fb", "65.7"
-        "R1", "51.8"
-        "R2", "-93.11"
-        "R3", "-291.07"
-        "tc1", "12.0"
-        "tc2", "5.0"
-        "te", "9.2"
-        "n1", "0.855"
-        "n2", "0.855"
-        "diameter", "50.8"
-        "Design Wavelengths", "706.5 nm, 855 nm, and 1015 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC508_075_B,self).__init__(fa=75.0,fb=65.7, R1=51.8,R2=-93.11, R3=-291.07, 
-                                    tc1=12.0, tc2=5.0, te=9.2, n1=None, mat1=N_LAK22, n2=None, mat2=N_SF6HT, diameter=50.8,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259',
-                                    label="AC508-075-B", wavelength=wavelength, wavelengthRef=0.855)
-
-class AC508_080_B(AchromatDoubletLens):
-    """ AC508-080-B
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "80.0"
-        "fb", "69.5"
-        "R1", "51.8"
-        "R2", "-44.6"
-        "R3", "-312.6"
-        "tc1", "16.0"
-        "tc2", "2.0"
-        "te", "10.3"
-        "n1", "0.855"
-        "n2", "0.855"
-        "diameter", "50.8"
-        "Design Wavelengths", "706.5 nm, 855 nm, and 1015 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC508_080_B,self).__init__(fa=80.0,fb=69.5, R1=51.8,R2=-44.6, R3=-312.6, 
-                                    tc1=16.0, tc2=2.0, te=10.3, n1=None, mat1=N_BAF10, n2=None, mat2=N_SF6HT, diameter=50.8,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259',
-                                    label="AC508-080-B", wavelength=wavelength, wavelengthRef=0.855)
-
-class AC508_100_B(AchromatDoubletLens):
-    """ AC508-100-B
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "100.0"
-        "fb", "91.5"
-        "R1", "65.8"
-        "R2", "-56.0"
-        "R3", "-280.6"
-        "tc1", "13.0"
-        "tc2", "2.0"
-        "te", "8.7"
-        "n1", "0.855"
-        "n2", "0.855"
-        "diameter", "50.8"
-        "Design Wavelengths", "706.5 nm, 855 nm, and 1015 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC508_100_B,self).__init__(fa=100.0,fb=91.5, R1=65.8,R2=-56.0, R3=-280.6, 
-                                    tc1=13.0, tc2=2.0, te=8.7, n1=None, n2=None, mat1=N_LAK22, mat2=N_SF6HT, diameter=50.8,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259',
-                                    label="AC508-100-B", wavelength=wavelength, wavelengthRef=0.855)
-
-class AC508_150_B(AchromatDoubletLens):
-    """ AC508-150-B
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "150.0"
-        "fb", "145.3"
-        "R1", "112.2"
-        "R2", "-95.9"
-        "R3", "-325.1"
-        "tc1", "8.2"
-        "tc2", "5.0"
-        "te", "9.3"
-        "n1", "0.855"
-        "n2", "0.855"
-        "diameter", "50.8"
-        "Design Wavelengths", "706.5 nm, 855 nm, and 1015 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC508_150_B,self).__init__(fa=150.0,fb=145.3, R1=112.2,R2=-95.9, R3=-325.1, 
-                                    tc1=8.2, tc2=5.0, te=9.3, n1=None, n2=None, mat1=N_LAK22, mat2=N_SF6HT, diameter=50.8,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259',
-                                    label="AC508-150-B", wavelength=wavelength, wavelengthRef=0.855)
-
 class AC508_200_B(AchromatDoubletLens):
     """ AC508-200-B
 
-- 
2.43.0


From 341d2352e6d2488ffcffdc796972dee6f725a0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 03/77] fix: Matrix.trace() marked the caller's ray as blocked
 and gave the entrance of a finite-length element the aperture of the previous
 element

The ray at the entrance of an element with a physical length is now a
copy with the aperture of that element, so the aperture and field stops
found there have the right diameter. With equal ratios, the last plane
is the stop, as before (the entrance was not considered).
---
 raytracing/imagingpath.py | 2 +-
 raytracing/matrix.py      | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 7d1f25a..e7eae57 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -474,7 +474,7 @@ class ImagingPath(MatrixGroup):
 
             for ray in rayTrace:
                 ratio = abs(ray.y / ray.apertureDiameter)
-                if ratio > maxRatio:
+                if ratio >= maxRatio and ratio > 0:
                     apertureStopPosition = ray.z
                     apertureStopDiameter = ray.apertureDiameter
                     maxRatio = ratio
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 5656b6a..d516e29 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -5,6 +5,7 @@ from .interface import *
 from .utils import *
 
 from typing import List
+import copy
 import multiprocessing
 import sys
 import math
@@ -657,8 +658,11 @@ class Matrix(object):
         rayTrace = []
         if isinstance(ray, Ray):
             if self.L > 0:
-                if abs(ray.y) > self.apertureDiameter/2:
-                    ray.isBlocked = True
+                if ray.isNotBlocked:
+                    ray = copy.copy(ray)  # The ray at the entrance: not the caller's ray
+                    ray.apertureDiameter = self.apertureDiameter
+                    if abs(ray.y) > self.apertureDiameter/2:
+                        ray.isBlocked = True
                 rayTrace.append(ray)
 
         rayTrace.append(self * ray)
-- 
2.43.0


From 3c7d00960d7b9228abfc7501a899f54e9262d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 04/77] fix: ImagingPath.apertureStop() ignored the apertures
 after one that blocked its test ray

The propagation of a ray stops where it is blocked: with a test angle of
0.1 rad, a small aperture far from the object was never considered.
---
 raytracing/imagingpath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index e7eae57..26f047d 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -465,7 +465,9 @@ class ImagingPath(MatrixGroup):
         if not self.hasFiniteApertureDiameter():
             return Stop(z=None, diameter=float('+Inf'))
         else:
-            ray = Ray(y=0, theta=0.1)  # Any ray angle will do
+            # Any ray angle will do, as long as the ray is not blocked: the propagation
+            # of a blocked ray stops and the elements that follow would be ignored.
+            ray = Ray(y=0, theta=1e-12)
             rayTrace = self.trace(ray)
 
             maxRatio = 0.0
-- 
2.43.0


From 72f13e402db1d1a0dc0fbb060e3fe4bf21502c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 05/77] fix: fieldStop() raised TypeError when the only
 aperture is at an image of the object

chiefRay() returns None in that case: there is no field stop.
---
 raytracing/imagingpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 26f047d..9b56154 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -616,6 +616,8 @@ class ImagingPath(MatrixGroup):
             chiefRayTrace = []
             while abs(dy) > self.precision or not wasBlocked:
                 chiefRay = self.chiefRay(y=y)
+                if chiefRay is None:  # No aperture limits the on-axis rays
+                    return Stop(z=fieldStopPosition, diameter=fieldStopDiameter)
                 chiefRayTrace = self.trace(chiefRay)
                 outputChiefRay = chiefRayTrace[-1]
 
-- 
2.43.0


From 54008cab32957369f689c3dcfa1c8470195cabeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 06/77] fix: NA() raised AttributeError for a path without
 aperture stop

Like fNumber(), it returns None when it is not defined.
---
 raytracing/imagingpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 9b56154..7689dd9 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -404,6 +404,8 @@ class ImagingPath(MatrixGroup):
         raytracing.ImagingPath.fNumber
         """
         axialRay = self.axialRay()
+        if axialRay is None:
+            return None
         return self.frontIndex * np.sin(axialRay.theta)
 
     def apertureStop(self):
-- 
2.43.0


From f83f1170ab9ac245b016e1f5bffccfa8b82664cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 07/77] fix: ToConjugate, ToFocus and fromFocusToFocus()
 ignored the front and back indices

---
 raytracing/matrix.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index d516e29..dff1a75 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -212,7 +212,8 @@ class Matrix(object):
         the lens, and then to the back focus.
         """
         from .matrixgroup import MatrixGroup
-        return MatrixGroup([Space(self.frontFocalLength()), self, Space(self.backFocalLength())])
+        return MatrixGroup([Space(self.frontFocalLength(), n=self.frontIndex), self,
+                            Space(self.backFocalLength(), n=self.backIndex)])
 
 
 
@@ -1697,7 +1698,7 @@ class ToConjugate(Space):
     def __init__(self, element):
         d = element.forwardConjugate().d
         if isfinite(d):
-            super(ToConjugate, self).__init__(d=element.forwardConjugate().d)
+            super(ToConjugate, self).__init__(d=d, n=element.backIndex)
         else:
             raise ValueError("The conjugate plane is at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
 
@@ -1709,7 +1710,7 @@ class ToFocus(Space):
     def __init__(self, element):
         bfl = element.backFocalLength()
         if bfl is not None:
-            super(ToFocus, self).__init__(d=bfl)
+            super(ToFocus, self).__init__(d=bfl, n=element.backIndex)
         else:
             raise ValueError("The focal plane is at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
 
-- 
2.43.0


From c88552ad3e21536519eb0330b2763a66735a423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 08/77] fix: backwardConjugate() and entrancePupil() failed
 when the front index is not 1

The space added in front of the element is in the medium of the front index.
---
 raytracing/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index dff1a75..f8e1613 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1309,7 +1309,7 @@ class Matrix(object):
             distance = -self.B / self.A
         else:
             distance = float("+inf")
-        conjugateMatrix = self * Space(d=distance)
+        conjugateMatrix = self * Space(d=distance, n=self.frontIndex)
         # This element is A*d + B, A is precisely 0, d is large, therefore B' == 0.
         conjugateMatrix.B = 0 
 
-- 
2.43.0


From 701ef08aed791f21072ea0d33e60e7f0ee4d80bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 09/77] fix: flipOrientation() of a Matrix left A and D as they
 were

The determinant became inconsistent with the exchanged indices and the
matrix was not the one of the element turned around.
---
 raytracing/matrix.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index f8e1613..7569dac 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1385,10 +1385,16 @@ class Matrix(object):
 
         Notes
         -----
-        For individual objects, it does not do anything because they are the same either way.
-        However, subclasses can override this function and act accordingly.
+        The matrix becomes the one for light going through the element in the other direction.
+        Subclasses can override this function and act accordingly.
         """
         self.isFlipped = not self.isFlipped
+
+        # The light goes through the element in the other direction.
+        determinant = self.determinant
+        self.A, self.B, self.C, self.D = (self.D / determinant, self.B / determinant,
+                                          self.C / determinant, self.A / determinant)
+
         # First and last interfaces. Used for BFL and FFL
         tempVertex = self.backVertex
         self.backVertex = self.frontVertex
-- 
2.43.0


From 720d2b34523073d9a20af83d0c24fd0ab6c74efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 10/77] fix: the vertices of a flipped ThickLens were
 exchanged, giving wrong front and back focal lengths

---
 raytracing/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 7569dac..969ed39 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1898,6 +1898,8 @@ class ThickLens(Matrix):
         super implementation because other things must be flipped (vertices for instance)
         """
         super(ThickLens, self).flipOrientation()
+        self.frontVertex = 0
+        self.backVertex = self.L
 
         temp = self.R1
         self.R1 = -self.R2
-- 
2.43.0


From 06b1ab860358f72c68d2f32b79e38e92ead9314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 11/77] fix: displaying a flipped plano lens or a flat mirror
 raised ZeroDivisionError

The radius of a flipped flat surface is -inf, and a mirror without power
has an infinite radius.
---
 raytracing/graphicComponents.py | 6 +++---
 raytracing/matrix.py            | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/raytracing/graphicComponents.py b/raytracing/graphicComponents.py
index 912a153..99f85b7 100644
--- a/raytracing/graphicComponents.py
+++ b/raytracing/graphicComponents.py
@@ -204,7 +204,7 @@ class Surface(Component):
         h = self.halfHeight
         v1 = self.x
 
-        if self.surface.R == float("+inf"):
+        if np.isinf(self.surface.R):
             return [BezierCurve([(v1, -h), (v1, h)])]
 
         R1 = self.surface.R
@@ -258,7 +258,7 @@ class SurfacePair(Component):
             self.corners = [corner]
             return [BezierCurve([(corner, -h), (v1, 0)]), BezierCurve([(v1, 0), (corner, h)])]
 
-        if self.surfaceA.R == float("+inf"):
+        if np.isinf(self.surfaceA.R):
             self.corners = [v1]
             return [BezierCurve([(v1, -h), (v1, h)])]
 
@@ -293,7 +293,7 @@ class SurfacePair(Component):
                     BezierCurve([(v2, 0), (corner2, -h)]),
                     BezierCurve([(corner2, -h), (self.corners[0], -h)])]
 
-        if self.surfaceB.R == float("+inf"):
+        if np.isinf(self.surfaceB.R):
             self.corners.append(v2)
             return [BezierCurve([(self.corners[0], h), (v2, h)]),
                     BezierCurve([(v2, h), (v2, -h)]),
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 969ed39..1108674 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1593,6 +1593,8 @@ class CurvedMirror(Matrix):
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
         """
+        if self.C == 0:
+            return [SphericalInterface(R=float("+inf"))]
         return [SphericalInterface(R=2/self.C)]
 
     def pointsOfInterest(self, z):
-- 
2.43.0


From fac8cae0ffad60e53d2763a89cc0ae57f8414008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 12/77] fix: the surfaces of a flipped mirror, interface, thick
 lens or compound lens were those of the unflipped element (flipped twice)

---
 raytracing/matrix.py          | 11 +++++++++--
 raytracing/specialtylenses.py |  7 +++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 1108674..db5d587 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1595,6 +1595,8 @@ class CurvedMirror(Matrix):
         """
         if self.C == 0:
             return [SphericalInterface(R=float("+inf"))]
+        if self.isFlipped:  # flipOrientation() already changed C
+            return [SphericalInterface(R=-2/self.C)]
         return [SphericalInterface(R=2/self.C)]
 
     def pointsOfInterest(self, z):
@@ -1763,6 +1765,8 @@ class DielectricInterface(Matrix):
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
         """
+        if self.isFlipped:  # flipOrientation() already changed R, n1 and n2
+            return [SphericalInterface(R=-self.R, n=self.n1)]
         return [SphericalInterface(R=self.R, n=self.n2)]
 
     def flipOrientation(self):
@@ -1844,8 +1848,11 @@ class ThickLens(Matrix):
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
         """
-        return [SphericalInterface(R=self.R1, n=self.n, L=self.L),
-                SphericalInterface(R=self.R2)]
+        R1, R2 = self.R1, self.R2
+        if self.isFlipped:  # flipOrientation() already exchanged R1 and R2
+            R1, R2 = -R2, -R1
+        return [SphericalInterface(R=R1, n=self.n, L=self.L),
+                SphericalInterface(R=R2)]
 
     def pointsOfInterest(self, z):
         """ List of points of interest for this element as a dictionary:
diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index b910bff..fd15343 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -46,11 +46,14 @@ class CompoundLens(MatrixGroup):
     def forwardSurfaces(self) -> List[Interface]:
         surfaces = []
         spaceLength = 0
-        for element in reversed(self.elements):
+        # flipOrientation() already reversed the elements and flipped each of them
+        elements = self.elements if self.isFlipped else reversed(self.elements)
+        for element in elements:
             if isinstance(element, Space):
                 spaceLength = element.L
             elif isinstance(element, DielectricInterface):
-                surfaces.append(SphericalInterface(element.R, n=element.n2, L=spaceLength))
+                R, n = (-element.R, element.n1) if self.isFlipped else (element.R, element.n2)
+                surfaces.append(SphericalInterface(R, n=n, L=spaceLength))
         surfaces.reverse()
         return surfaces
 
-- 
2.43.0


From 162b98e2b16954092adfe73743782137e3954bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 13/77] fix: editing a MatrixGroup misplaced elements (negative
 or open slices), lost them when one was refused and kept the matrix of a
 group that became empty

---
 raytracing/matrixgroup.py | 60 ++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 1d1fb5e..944f88a 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -79,6 +79,10 @@ class MatrixGroup(Matrix):
                     raise ValueError(msg)
 
         self.elements.append(matrix)
+        self._updateTransferMatrix()
+
+    def _updateTransferMatrix(self):
+        """ The properties of the group are those of its transfer matrix. """
         transferMatrix = self.transferMatrix()
         self.A = transferMatrix.A
         self.B = transferMatrix.B
@@ -90,6 +94,24 @@ class MatrixGroup(Matrix):
         self.frontIndex = transferMatrix.frontIndex
         self.backIndex = transferMatrix.backIndex
 
+    def _replaceElements(self, elements):
+        """ Rebuild the group with these elements (check indices, compute ABCD, etc).
+        If one of them is refused, the group is left as it was. """
+        originalElements = self.elements
+        originalIndices = [(e, e.frontIndex, e.backIndex) for e in elements if isinstance(e, Space)]
+
+        self.elements = []
+        try:
+            for element in elements:
+                self.append(element)
+        except Exception:
+            for element, frontIndex, backIndex in originalIndices:
+                element.frontIndex = frontIndex
+                element.backIndex = backIndex
+            self.elements = originalElements
+            self._updateTransferMatrix()
+            raise
+        self._updateTransferMatrix()
 
     def __len__(self):
         """
@@ -169,11 +191,9 @@ class MatrixGroup(Matrix):
         >>> print(f"Has finite diameter? {system.hasFiniteApertureDiameter()}")
         Has finite diameter? False
         """
-        poppedElement = self.elements.pop(index)  # We pop the matrix in the list
-        tempElements = self.elements[:]  # We "copy" the list
-        self.elements.clear()  # We clear the attribute
-        for element in tempElements:
-            self.append(element)  # We rebuild the attribute (check indices, compute ABCD, etc)
+        remainingElements = self.elements[:]  # We "copy" the list
+        poppedElement = remainingElements.pop(index)  # We pop the matrix in the list
+        self._replaceElements(remainingElements)
         return poppedElement
 
     def insert(self, index: int, element: Matrix):
@@ -217,11 +237,7 @@ class MatrixGroup(Matrix):
             element = MatrixGroup([element])
         else:
             element = MatrixGroup(element)
-        self.elements = self.elements[:index] + element.elements + self.elements[index:]
-        tempElements = self.elements[:]
-        self.elements.clear()
-        for matrix in tempElements:
-            self.append(matrix)
+        self._replaceElements(self.elements[:index] + element.elements + self.elements[index:])
 
     def __setitem__(self, key, element: Matrix):
         """ This function is used to substitute a single matrix 
@@ -260,15 +276,16 @@ class MatrixGroup(Matrix):
         if isinstance(key, slice):
             if key.step is not None and key.step != 1:
                 warnings.warn("Not using the step of the slice.", UserWarning)
-            if key.start is None:
-                key = slice(0, key.stop)
-            if key.stop is None:
-                key = slice(key.start, len(self))
-            self.elements = self.elements[:key.start] + self.elements[key.stop:]  # "Cut" the original list
-            self.insert(key.start, element)
+            start, stop, _ = slice(key.start, key.stop).indices(len(self))
+            stop = max(start, stop)
         else:
-            self.pop(key)
-            self.insert(key, element)
+            start = range(len(self))[key]  # Negative indices count from the end
+            stop = start + 1
+
+        if not isinstance(element, collections.Iterable):
+            element = [element]
+        element = MatrixGroup(element)
+        self._replaceElements(self.elements[:start] + element.elements + self.elements[stop:])
 
     def transferMatrix(self, upTo=float('+Inf')):
         r""" The transfer matrix between front edge and distance=upTo
@@ -549,9 +566,6 @@ class MatrixGroup(Matrix):
             if not all([isinstance(matrix, Matrix) for matrix in loadedMatrices]):
                 raise IOError(f"{filePath} must contain only Matrix objects.")
             if append and self.elements is not None:
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(self.elements + list(loadedMatrices))
             else:
-                self.elements = []
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(list(loadedMatrices))
-- 
2.43.0


From aaf3609c2d346395040c2cfadfd7ee3d2f992dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 14/77] fix: the partial transfer matrix of a group started in
 index 1 instead of the index in front of the group

---
 raytracing/matrixgroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 944f88a..630a3aa 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -328,7 +328,9 @@ class MatrixGroup(Matrix):
         ray formalism.  To find out if a ray has been blocked, you must
         use trace().
         """
-        transferMatrix = Matrix(A=1, B=0, C=0, D=1)
+        # We start in the medium in front of the first element
+        n = self.elements[0].frontIndex if len(self.elements) != 0 else 1.0
+        transferMatrix = Matrix(A=1, B=0, C=0, D=1, frontIndex=n, backIndex=n)
         distance = upTo
         for element in self.elements:
             if element.L <= distance:
-- 
2.43.0


From a9c2450ac9adf8465a7d0b57c21c31efa9180878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 15/77] fix: rounding errors could leave out of
 transferMatrix(upTo) the elements at that position

---
 raytracing/matrixgroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 630a3aa..fa7a3c7 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -333,7 +333,8 @@ class MatrixGroup(Matrix):
         transferMatrix = Matrix(A=1, B=0, C=0, D=1, frontIndex=n, backIndex=n)
         distance = upTo
         for element in self.elements:
-            if element.L <= distance:
+            # An element that ends at "upTo" is included, rounding errors aside
+            if element.L <= distance or areAbsolutelyAlmostEqual(element.L, distance, 1e-9):
                 transferMatrix = element * transferMatrix
                 distance -= element.L
             else:
-- 
2.43.0


From ea366b5b4298e0bcb3cf147e7bc5f8846aa7e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 16/77] fix: the histograms, yValues and thetaValues of Rays
 were those before load()

---
 raytracing/rays.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 16396cf..4064839 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -389,7 +389,9 @@ class Rays:
         if self._rays is not None:
             self._rays.append(ray)
 
-        # Invalidate cached values
+        self._invalidateCachedValues()
+
+    def _invalidateCachedValues(self):
         self._yValues = None
         self._thetaValues = None
         self._yHistogram = None
@@ -426,6 +428,8 @@ class Rays:
             else:
                 self._rays = loadedRays
 
+        self._invalidateCachedValues()
+
     def save(self, filePath):
 
         """ A list of rays can be saved using this function.
-- 
2.43.0


From c1f7cf10a89b76b165ca28420f578159193dd044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 17/77] fix: Rays() was empty when created from an iterator

---
 raytracing/rays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 4064839..bf0810f 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -64,8 +64,9 @@ class Rays:
             self._rays = []
         else:
             if isinstance(rays, collections.Iterable):
+                rays = list(rays)  # It may be an iterator
                 if all([isinstance(ray, Ray) for ray in rays]):
-                    self._rays = list(rays)
+                    self._rays = rays
                 else:
                     raise TypeError("'rays' elements must be of type Ray.")
             else:
-- 
2.43.0


From 2b83c5afb82ebedce7a3695cc8d5f5b4bedd7f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 18/77] fix: UniformRays with a single height (M=1) was at
 height 0, even outside of [yMin, yMax]

---
 raytracing/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index bf0810f..791a4b7 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -531,7 +531,7 @@ class UniformRays(Rays):
         rays = []
 
         if self.M == 1:
-            heights = [0]
+            heights = [(self.yMin + self.yMax) / 2]
         else:
             heights = np.linspace(self.yMin, self.yMax, self.M, endpoint=True)
 
-- 
2.43.0


From 5b40a14181a26126ebcf168a51f6f86b18882259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 19/77] fix: the waist of a GaussianBeam ignored the index of
 refraction

---
 raytracing/gaussianbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/gaussianbeam.py b/raytracing/gaussianbeam.py
index f813d8d..579f4eb 100644
--- a/raytracing/gaussianbeam.py
+++ b/raytracing/gaussianbeam.py
@@ -101,7 +101,7 @@ class GaussianBeam(object):
         The 1/e beam size in electric field extracted from q at the waist of the beam.
         """
         if self.zo > 0:
-            return math.sqrt(self.zo * self.wavelength / math.pi)
+            return math.sqrt(self.zo * self.wavelength / self.n / math.pi)
         else:
             return None
 
-- 
2.43.0


From b697df206690b38feca2b675ebe5bc3bd8cd13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 20/77] fix: appendElementsInReverse() left the matrix of the
 cavity as it was and did not reverse the elements

---
 raytracing/lasercavity.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 1b134cb..f8c9810 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -1,6 +1,7 @@
 from .matrixgroup import *
 from .imagingpath import *
 from .laserpath import *
+import copy
 import warnings
 
 class LaserCavity(LaserPath):
@@ -55,7 +56,17 @@ class LaserCavity(LaserPath):
             forwardElements = self.elements[firstElement:]
             
         for element in reversed(forwardElements):
-            self.elements.append(element)
+            parts = element.transferMatrices()
+            if not any(isinstance(part, CurvedMirror) for part in parts):
+                parts = [element]
+
+            for part in reversed(parts):
+                part = copy.deepcopy(part)
+                if not isinstance(part, CurvedMirror):
+                    # The beam goes through elements the other way around, but
+                    # is always reflected by the same side of a mirror
+                    part.flipOrientation()
+                self.append(part)
 
 
     def eigenModes(self):
-- 
2.43.0


From fb10ade86b066e7e2a536dfd4a3b58c9491bf507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 21/77] fix: the modes of a cavity that starts in a medium
 could not be propagated in the cavity and had the wrong size

---
 raytracing/lasercavity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index f8c9810..eb92451 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -93,7 +93,7 @@ class LaserCavity(LaserPath):
 
         q1 = (- b + sqrtDelta) / (2.0 * self.C)
         q2 = (- b - sqrtDelta) / (2.0 * self.C)
-        return (GaussianBeam(q=q1), GaussianBeam(q=q2))
+        return (GaussianBeam(q=q1, n=self.frontIndex), GaussianBeam(q=q2, n=self.frontIndex))
 
     def laserModes(self):
         """
-- 
2.43.0


From 556f7ec4a404dbdcecdaa7280877c614189dd6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 22/77] fix: Preferences() created with initial values raised
 AttributeError

---
 raytracing/preferences.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index bf8d141..ec6934b 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -4,8 +4,6 @@ import platform
 
 class Preferences(dict):
     def __init__(self, *args, **kwargs):
-        self.update(*args, **kwargs)
-
         prefFilename = "ca.dcclab.python.raytracing.json"
         prefDir = "."
 
@@ -26,6 +24,7 @@ class Preferences(dict):
 
         self.path = os.path.join(prefDir, prefFilename)
         self.readFromDisk()
+        self.update(*args, **kwargs)
 
     def update(self, *args, **kwargs):
         for k, v in dict(*args, **kwargs).items():
-- 
2.43.0


From 07aba85d55ca935cd720f7ce76953bd0739ac103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 23/77] fix: setting a preference undid those set or removed by
 another Preferences(), and a deleted one came back

---
 raytracing/preferences.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index ec6934b..c9d7c9d 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -35,9 +35,15 @@ class Preferences(dict):
         return super().__getitem__(key)
 
     def __setitem__(self, key, value):
+        self.readFromDisk()  # Another object may have written to the file
         super().__setitem__(key, value)
         self.writeToDisk()
 
+    def __delitem__(self, key):
+        self.readFromDisk()
+        super().__delitem__(key)
+        self.writeToDisk()
+
     def resetPreferences(self):
         try:
             os.remove(self.path)
@@ -48,12 +54,13 @@ class Preferences(dict):
 
     def readFromDisk(self):
         if os.path.exists(self.path):
-            with open(self.path, "r+") as prefFile:
+            with open(self.path, "r") as prefFile:
                 try:
-                    data = json.load(prefFile)
+                    data = dict(json.load(prefFile))
                 except Exception as err:
-                    data = dict()
-            self.update(data)
+                    return
+            self.clear()
+            super().update(data)
         else:
             self.clear()
             self.writeToDisk()
-- 
2.43.0


From 145e2019c929c208a50799b81cd167c9c93696a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 24/77] fix: all preferences were lost when writing them failed
 or was interrupted

---
 raytracing/preferences.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index c9d7c9d..f5e1b9e 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -66,5 +66,16 @@ class Preferences(dict):
             self.writeToDisk()
 
     def writeToDisk(self):
-        with open(self.path, "w+") as prefFile:
-            json.dump(self, prefFile)
+        # The file is replaced at once: it is never partly written, even if the
+        # preferences cannot be encoded or if we are interrupted
+        data = json.dumps(self)
+        path = os.path.realpath(self.path)
+        temporaryPath = "{0}.{1}.tmp".format(path, os.getpid())
+        try:
+            with open(temporaryPath, "w") as prefFile:
+                prefFile.write(data)
+            os.replace(temporaryPath, path)
+        except BaseException:
+            if os.path.exists(temporaryPath):
+                os.remove(temporaryPath)
+            raise
-- 
2.43.0


From bdc83e72157551a7f9c6a6ce4372a1f13de2327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 25/77] fix: an axicon deviated rays that were already blocked,
 in place

---
 raytracing/axicon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/axicon.py b/raytracing/axicon.py
index bd6a5d2..ef312ee 100644
--- a/raytracing/axicon.py
+++ b/raytracing/axicon.py
@@ -98,6 +98,8 @@ class Axicon(Matrix):
         """
 
         outputRay = super(Axicon, self).mul_ray(rightSideRay)
+        if rightSideRay.isBlocked:
+            return outputRay
 
         if rightSideRay.y > 0:
             outputRay.theta += -self.deviationAngle()
-- 
2.43.0


From 1176121046c7f8378139e345cdaf147307c42e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 26/77] fix: subPath() was always in air and did not reverse
 the elements of a backward path

---
 raytracing/imagingpath.py |  7 +++----
 raytracing/lasercavity.py | 15 ++-------------
 raytracing/matrixgroup.py | 18 ++++++++++++++++++
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 7689dd9..eb483ef 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -942,12 +942,11 @@ class ImagingPath(MatrixGroup):
                 assert type(element).__name__ == 'Space', 'The position of the rays cannot be in the same ' \
                                                           'position of another element.'
                 if backwards:
-                    newElements = [Space(zStart - z)]
-                    if i != 0:
-                        newElements.extend(self.elements[i-1::-1])
+                    newElements = [Space(zStart - z, n=element.frontIndex)]
+                    newElements.extend(reversedElements(self.elements[:i]))
                     return ImagingPath(elements=newElements)
                 else:
-                    newElements = [Space(z + element.L - zStart)]
+                    newElements = [Space(z + element.L - zStart, n=element.frontIndex)]
                     newElements.extend(self.elements[i+1:])
                     return ImagingPath(elements=newElements)
 
diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index eb92451..0626c43 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -1,7 +1,6 @@
 from .matrixgroup import *
 from .imagingpath import *
 from .laserpath import *
-import copy
 import warnings
 
 class LaserCavity(LaserPath):
@@ -55,18 +54,8 @@ class LaserCavity(LaserPath):
         else:
             forwardElements = self.elements[firstElement:]
             
-        for element in reversed(forwardElements):
-            parts = element.transferMatrices()
-            if not any(isinstance(part, CurvedMirror) for part in parts):
-                parts = [element]
-
-            for part in reversed(parts):
-                part = copy.deepcopy(part)
-                if not isinstance(part, CurvedMirror):
-                    # The beam goes through elements the other way around, but
-                    # is always reflected by the same side of a mirror
-                    part.flipOrientation()
-                self.append(part)
+        for element in reversedElements(forwardElements):
+            self.append(element)
 
 
     def eigenModes(self):
diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index fa7a3c7..f75eeaf 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -1,6 +1,24 @@
 from .matrix import *
 
 import collections.abc as collections
+import copy
+
+
+def reversedElements(elements):
+    """ Copies of the elements as seen by light that goes through them the other way
+    around. Light is always reflected by the same side of a mirror: it is not flipped. """
+    reverse = []
+    for element in reversed(elements):
+        parts = element.transferMatrices()
+        if not any(isinstance(part, CurvedMirror) for part in parts):
+            parts = [element]
+
+        for part in reversed(parts):
+            part = copy.deepcopy(part)
+            if not isinstance(part, CurvedMirror):
+                part.flipOrientation()
+            reverse.append(part)
+    return reverse
 
 
 class MatrixGroup(Matrix):
-- 
2.43.0


From 9cace3a82e0099b85a7b7253a44e15f4c5911fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 27/77] fix: display() added rays to the list of the caller

---
 raytracing/imagingpath.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index eb483ef..8302855 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -977,8 +977,7 @@ class ImagingPath(MatrixGroup):
             self.figure.designParams['onlyPrincipalAndAxialRays'] = onlyPrincipalAndAxialRays
         self.figure.designParams['removeBlockedRaysCompletely'] = removeBlocked
 
-        if raysList is None:
-            raysList = []
+        raysList = [] if raysList is None else list(raysList)
         if rays is not None:
             raysList.append(rays)
 
-- 
2.43.0


From c1cc5613b4370daeb591d0cffa33e9bb4d091e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 28/77] fix: focalShifts() returned 1000 copies of a list of
 wavelengths, and TypeError without a design focal length

---
 raytracing/specialtylenses.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index fd15343..24fba75 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -2,7 +2,7 @@ from .matrixgroup import *
 from .materials import *
 from math import *
 import matplotlib.transforms as transforms
-from numpy import linspace
+from numpy import array, linspace
 import matplotlib.pyplot as plt
 
 """ 
@@ -68,7 +68,7 @@ class CompoundLens(MatrixGroup):
         """
 
         if self.designFocalLength is None:
-            raise("The design focal length of this lens was not set upon creation. Set it with self.designFocalLength=xx.")
+            raise ValueError("The design focal length of this lens was not set upon creation. Set it with self.designFocalLength=xx.")
 
         if wavelengths is None:
             wavelengths = linspace(0.4, 0.8, 100)
@@ -79,7 +79,7 @@ class CompoundLens(MatrixGroup):
             f,f = lens.effectiveFocalLengths()
             focalShifts.append(f-self.designFocalLength)
         
-        return wavelengths*1000, focalShifts
+        return array(wavelengths)*1000, focalShifts
 
     def showChromaticAberrations(self, wavelengths=None):
         """ Show the chromatic aberrations focal shifts for this lens
-- 
2.43.0


From 67c24e28df40f2cd56f283e5ad64ca1d6b772a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 29/77] fix: focalShifts() raised TypeError for the Edmund
 Optics lenses with known materials

---
 raytracing/eo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/eo.py b/raytracing/eo.py
index d73c401..56c5108 100644
--- a/raytracing/eo.py
+++ b/raytracing/eo.py
@@ -45,13 +45,13 @@ class PN_33_922(AchromatDoubletLens):
         "diameter", "75"
 
     """
-    def __init__(self):
+    def __init__(self, wavelength=None):
         # PN for Part number
         super(PN_33_922,self).__init__(fa=150.00,fb=126.46, R1=92.05,R2=-72.85, R3=-305.87, 
                                     tc1=23.2, tc2=23.1, te=36.01, n1=None, mat1=N_BAK1, n2=None, mat2=N_SF8, diameter=75,
                                     label="EO #33-922",
                                     url="https://www.edmundoptics.com/p/75mm-dia-x-150mm-fl-vis-0-coated-achromatic-lens/3376/",
-                                    wavelengthRef=0.5876)
+                                    wavelengthRef=0.5876, wavelength=wavelength)
 
 class PN_88_593(AchromatDoubletLens):
     """PN_88_593
@@ -97,9 +97,9 @@ class PN_85_877(AchromatDoubletLens):
         "diameter", "6.25"
 
     """
-    def __init__(self):
+    def __init__(self, wavelength=None):
         super(PN_85_877,self).__init__(fa=-10.0,fb=-11.92, R1=-6.55, R2=5.10, R3=89.10, 
                                     tc1=1.0, tc2=2.5, te=4.2, n1=None, mat1=N_BAF10, n2=None, mat2=N_SF10, diameter=6.25,
                                     label="EO #85-877",
                                     url="https://www.edmundoptics.com/p/625mm-dia-x10mm-fl-vis-nir-coated-negative-achromatic-lens/28478/",
-                                    wavelengthRef=0.5876)
+                                    wavelengthRef=0.5876, wavelength=wavelength)
-- 
2.43.0


From 0b72d779809a0f7805b4c7db1a3fdf1ddea065ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 30/77] fix: ZMXReader raised IndexError for a lens designed at
 0.55 microns only

---
 raytracing/zemax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 1c7c4cf..45252d8 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -57,7 +57,7 @@ class ZMXReader:
 
         wavelengths = self.value("WAVM", index=1)
         if isinstance(wavelengths, list):
-            while float(wavelengths[-1]) == 0.55:
+            while len(wavelengths) > 1 and float(wavelengths[-1]) == 0.55:
                 wavelengths.pop()
             return [ float(x) for x in wavelengths]
         else:
-- 
2.43.0


From 1d812c70b174d78a8f7a1ca672ccc5ec351ef279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 31/77] fix: ZMXReader read dimensions in centimeters or meters
 as millimeters

---
 raytracing/zemax.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 45252d8..02729c8 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -46,6 +46,10 @@ class ZMXReader:
             self.factor = 1
         elif areTheSame("IN", units):
             self.factor = 25.4
+        elif areTheSame("CM", units):
+            self.factor = 10
+        elif areTheSame("METER", units):
+            self.factor = 1000
 
         wavelengths = self.designWavelengths()
         self.designWavelength = wavelengths[len(wavelengths)//2]
-- 
2.43.0


From b77766c74d8a2c5c2d45eaad0c6495e8549f0fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 32/77] fix: traceManyThroughInParallel loses the rays of a
 generator when it falls back to serial code

---
 raytracing/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index db5d587..cbd3de9 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -877,8 +877,8 @@ class Matrix(object):
             if processes is None:
                 processes = multiprocessing.cpu_count()
 
-            theExplicitList = list(inputRays)
-            manyInputRays = [(theExplicitList[i::processes], progress) for i in range(processes)]
+            inputRays = list(inputRays)  # A generator could not be read again if we fall back to slower code
+            manyInputRays = [(inputRays[i::processes], progress) for i in range(processes)]
 
             with multiprocessing.Pool(processes=processes) as pool:
                 outputRays = pool.starmap(self.traceManyThrough, manyInputRays)
-- 
2.43.0


From 2e1c8b24942492f938101f7808775a488cee2396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 33/77] fix: ToFocus and fromFocusToFocus miss the focus of an
 element whose vertices are not its edges

---
 raytracing/matrix.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index cbd3de9..a14f65b 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -212,8 +212,10 @@ class Matrix(object):
         the lens, and then to the back focus.
         """
         from .matrixgroup import MatrixGroup
-        return MatrixGroup([Space(self.frontFocalLength(), n=self.frontIndex), self,
-                            Space(self.backFocalLength(), n=self.backIndex)])
+        # The spaces start at the edges of the element, which may not be its vertices
+        (frontFocus, backFocus) = self.focusPositions(z=0)
+        return MatrixGroup([Space(-frontFocus, n=self.frontIndex), self,
+                            Space(backFocus - self.L, n=self.backIndex)])
 
 
 
@@ -1718,9 +1720,10 @@ class ToFocus(Space):
     of the `element`.
     """
     def __init__(self, element):
-        bfl = element.backFocalLength()
-        if bfl is not None:
-            super(ToFocus, self).__init__(d=bfl, n=element.backIndex)
+        backFocus = element.focusPositions(z=0).z2
+        if backFocus is not None:
+            # The space starts at the back edge of the element, which may not be its back vertex
+            super(ToFocus, self).__init__(d=backFocus - element.L, n=element.backIndex)
         else:
             raise ValueError("The focal plane is at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
 
-- 
2.43.0


From e944fd4e2404dac8468c44315f2b8b846b841a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 34/77] fix: flipOrientation of a group flips twice an element
 that is there twice

---
 raytracing/matrixgroup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index f75eeaf..2c069e6 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -514,8 +514,12 @@ class MatrixGroup(Matrix):
         allElements.reverse()
         self.elements = []
 
+        flippedElements = []
         for element in allElements:
-            element.flipOrientation()
+            # The same element may be there several times: it must be flipped only once
+            if not any(element is flipped for flipped in flippedElements):
+                element.flipOrientation()
+                flippedElements.append(element)
             self.append(element)
 
         return self
-- 
2.43.0


From 747cea0f92aae449f7146ec31360553c9fa60937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 35/77] fix: reading rays (yValues, another loop) inside a loop
 over Rays ends that loop

---
 raytracing/rays.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 791a4b7..3b738a0 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -358,9 +358,16 @@ class Rays:
             print("Progress {0}/{1} ({2:.0f}%) ".format(self.iteration, nRays, self.iteration / nRays * 100))
 
     def __iter__(self):
+        # Each loop has its own position: reading the rays inside a loop does not disturb that loop.
         self.iteration = 0
         self.progressLog = 10000
-        return self
+
+        position = 0
+        while position < len(self):
+            ray = self[position]
+            position += 1
+            self.iteration = position
+            yield ray
 
     def __next__(self) -> Ray:
         if self._rays is None:
-- 
2.43.0


From 6fd8db6d857f01c9a0093059e0ffa10b67254d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 36/77] fix: a loop over a MatrixGroup inside another one ends
 the first one

---
 raytracing/matrixgroup.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 2c069e6..0557fdb 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -525,8 +525,15 @@ class MatrixGroup(Matrix):
         return self
 
     def __iter__(self):
+        # Each loop has its own position: a loop inside another one does not disturb it.
         self.iteration = 0
-        return self
+
+        position = 0
+        while self.elements is not None and position < len(self.elements):
+            element = self.elements[position]
+            position += 1
+            self.iteration = position
+            yield element
 
     def __next__(self):
         if self.elements is None:
-- 
2.43.0


From eb25c47fd4553c0ce0c5296aaf0df0ddb54a776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 37/77] fix: changing the returned yValues, thetaValues or
 histograms changed the cached ones

---
 raytracing/rays.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 3b738a0..a931dd5 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -117,7 +117,7 @@ class Rays:
         if self._yValues is None:
             self._yValues = list(map(lambda x: x.y, self))
 
-        return self._yValues
+        return self._yValues[:]  # A copy: the cached list must not be changed by the caller
 
     @property
     def thetaValues(self):
@@ -127,7 +127,7 @@ class Rays:
         if self._thetaValues is None:
             self._thetaValues = list(map(lambda x: x.theta, self))
 
-        return self._thetaValues
+        return self._thetaValues[:]
 
     def rayCountHistogram(self, binCount=None, minValue=None, maxValue=None):
 
@@ -203,7 +203,7 @@ class Rays:
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesCountHistogram = xValues
 
-        return (self._xValuesCountHistogram, self._yHistogram)
+        return (self._xValuesCountHistogram[:], self._yHistogram[:])
 
     def rayAnglesHistogram(self, binCount=None, minValue=None, maxValue=None):
 
@@ -281,7 +281,7 @@ class Rays:
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesAnglesHistogram = xValues
 
-        return (self._xValuesAnglesHistogram, self._thetaHistogram)
+        return (self._xValuesAnglesHistogram[:], self._thetaHistogram[:])
 
     def display(self, title="Intensity profile", showTheta=True):  # pragma: no cover
         """This function plots the intensity profiles of a list of rays.
-- 
2.43.0


From a2522d341dc75ec60378641ea667851771a84f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 38/77] fix: Rays.save of random rays saved only those already
 generated

---
 raytracing/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index a931dd5..f4c120b 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -450,7 +450,7 @@ class Rays:
         """
 
         with open(filePath, 'wb') as outfile:
-            pickle.Pickler(outfile).dump(self._rays)
+            pickle.Pickler(outfile).dump(list(self))  # Random rays are generated as they are read
 
         # We save the data to disk using a module called Pickler
         # Some asynchronous magic is happening here with Pickle
-- 
2.43.0


From 59ed2efb06dff2a0b845f782fc26a7589b552410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 39/77] fix: two threads saving preferences shared the same
 temporary file

---
 raytracing/preferences.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index f5e1b9e..b3d7e8c 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -1,6 +1,7 @@
 import os
 import json
 import platform
+import threading
 
 class Preferences(dict):
     def __init__(self, *args, **kwargs):
@@ -70,7 +71,7 @@ class Preferences(dict):
         # preferences cannot be encoded or if we are interrupted
         data = json.dumps(self)
         path = os.path.realpath(self.path)
-        temporaryPath = "{0}.{1}.tmp".format(path, os.getpid())
+        temporaryPath = "{0}.{1}.{2}.tmp".format(path, os.getpid(), threading.get_ident())
         try:
             with open(temporaryPath, "w") as prefFile:
                 prefFile.write(data)
-- 
2.43.0


From fc3b1049069c40b6d6abb45b7a61a73bd487f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 40/77] fix: a Zemax file without UNIT raised AttributeError
 instead of being in mm

---
 raytracing/zemax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 02729c8..46f15d2 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -42,7 +42,7 @@ class ZMXReader:
 
         units = self.value("UNIT")
         self.factor = 1
-        if units is None:
+        if not units:  # Not in the file: value() returns an empty list
             self.factor = 1
         elif areTheSame("IN", units):
             self.factor = 25.4
-- 
2.43.0


From 7d75b57fac27ac7a5717839c9a73a9f97f5374d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 41/77] fix: N_SF6 had the dispersion of SF1, and the catalogue
 lenses made of it the wrong focal lengths

---
 raytracing/materials.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index b35eb8c..1b9851d 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -223,18 +223,18 @@ class N_SF5(Material):
         return 32.25
 
 class N_SF6(Material):
-    """ All data from https://refractiveindex.info/tmp/data/glass/schott/N-SF6HT.html """
+    """ All data from https://refractiveindex.info/tmp/data/glass/schott/N-SF6.html """
     @classmethod
     def n(cls, wavelength):
         if wavelength > 10 or wavelength < 0.01:
             raise ValueError("Wavelength must be in microns")
         x = wavelength
-        n=(1+1.55912923/(1-0.0121481001/x**2)+0.284246288/(1-0.0534549042/x**2)+0.968842926/(1-112.174809/x**2))**.5
+        n=(1+1.77931763/(1-0.0133714182/x**2)+0.338149866/(1-0.0617533621/x**2)+2.08734474/(1-174.01759/x**2))**.5
         return n
 
     @classmethod
     def abbeNumber(cls):
-        return 29.51
+        return 25.36
 
 
 class N_SF6HT(Material):
-- 
2.43.0


From f6cb979e9a2296ede40b33c8b240b66496fdcae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 42/77] fix: typos in the radii of AC127-050-AB-ML and
 AC127-075-AB-ML

---
 raytracing/thorlabs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/thorlabs.py b/raytracing/thorlabs.py
index 5e00812..016006b 100644
--- a/raytracing/thorlabs.py
+++ b/raytracing/thorlabs.py
@@ -2169,14 +2169,14 @@ class AC127_030_AB_ML(AchromatDoubletLens):
 
 class AC127_050_AB_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(AC127_050_AB_ML,self).__init__(fa=50.0,fb=46.56, R1=23.3, R2=-22.6, R3=-102.4,
+        super(AC127_050_AB_ML,self).__init__(fa=50.0,fb=46.56, R1=26.3, R2=-22.6, R3=-102.4,
                                     tc1=4.0, tc2=2.0, te=5.0, n1=None, mat1=N_BK7, n2=None, mat2=N_SF2, diameter=12.7,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=12807',
                                     label="AC127-050-AB-ML", wavelength=wavelength, wavelengthRef=0.5876)
 
 class AC127_075_AB_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(AC127_075_AB_ML,self).__init__(fa=75.0,fb=72.67, R1=38.4, R2=-35.0, R3=-1773,
+        super(AC127_075_AB_ML,self).__init__(fa=75.0,fb=72.67, R1=38.4, R2=-35.0, R3=-177.3,
                                     tc1=2.5, tc2=1.5, te=3.3, n1=None, mat1=N_BK7, n2=None, mat2=N_SF2, diameter=12.7,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=12808',
                                     label="AC127-075-AB-ML", wavelength=wavelength, wavelengthRef=0.5876)
-- 
2.43.0


From 5a966104c71d7d7a24606d1a2aca895e05e70203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 43/77] fix: lenses with an integer focal length could not be
 built at some wavelengths

---
 raytracing/specialtylenses.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 24fba75..92ec2b1 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -196,20 +196,20 @@ class AchromatDoubletLens(CompoundLens):
                                                   label=label)
 
         if abs(self.tc1 + self.tc2 - self.L) / self.L > 0.02:
-            msg = "Obtained thickness {0:.4} is not within 2%% of expected {1:.4}".format(self.tc1 + self.tc2, self.L)
+            msg = "Obtained thickness {0:.4g} is not within 2%% of expected {1:.4g}".format(self.tc1 + self.tc2, self.L)
             warnings.warn(msg, ExpertNote)
 
         # After having built the lens, we confirm that the expected effective
         # focal length (fa) is actually within 1% of the calculated focal length
         (f, f) = self.focalDistances()
         if abs((f - fa) / fa) > 0.01:
-            msg = "Doublet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f, fa, self.label)
+            msg = "Doublet {2}: Obtained effective focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(f, fa, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if abs((BFL - fb) / fb) > 0.01:
-            msg = "Doublet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+            msg = "Doublet {2}: Obtained back focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(BFL, fb, self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
@@ -307,20 +307,20 @@ class SingletLens(CompoundLens):
                                           label=label)
 
         if abs(self.tc - self.L) / self.L > 0.02:
-            msg = "Obtained thickness {0:.4} is not within 2%% of expected {1:.4}".format(self.tc1, self.L)
+            msg = "Obtained thickness {0:.4g} is not within 2%% of expected {1:.4g}".format(self.tc, self.L)
             warnings.warn(msg, ExpertNote)
 
         # After having built the lens, we confirm that the expected effective
         # focal length (fa) is actually within 1% of the calculated focal length
         (f_f, f_b) = self.focalDistances()
         if abs((f_f - f) / f) > 0.01:
-            msg = "Singlet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f_f, fb, self.label)
+            msg = "Singlet {2}: Obtained effective focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(f_f, f, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if abs((BFL - fb) / fb) > 0.01:
-            msg = "Singlet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+            msg = "Singlet {2}: Obtained back focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(BFL, fb, self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
-- 
2.43.0


From b2e22a33804b017d0826555d974cef964cb8ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 44/77] fix: keep the design of an ImagingPath, and its
 design() function, after a display

---
 raytracing/imagingpath.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 8302855..6682230 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -971,6 +971,7 @@ class ImagingPath(MatrixGroup):
             If comments are included they will be displayed on a graph in the bottom half of the plot. (default=None)
         """
 
+        designParams = dict(self.figure.designParams)
         if limitObjectToFieldOfView is not None:
             self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
         if onlyPrincipalAndAxialRays is not None:
@@ -1007,9 +1008,9 @@ class ImagingPath(MatrixGroup):
         self.figure.display(raysList=raysList, comments=comments, title=self.label,
                             backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
 
-        savedDesignParams = self.figure.designParams
         self.figure = Figure(opticalPath=self)
-        self.design = savedDesignParams
+        self.figure.designParams = designParams
+        self.design = self.figure.design
 
     def saveFigure(self, filePath, rays=None, raysList=None, removeBlocked=True, comments=None,
                    onlyPrincipalAndAxialRays=None, limitObjectToFieldOfView=None):
-- 
2.43.0


From b20a57cccf5e90175ef5a48d1521ede1655943c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 45/77] fix: display every object of a plane, and images when
 objects are hidden

---
 raytracing/figure.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 39f6d3b..6c9a28f 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -206,17 +206,18 @@ class Figure:
             instance = type(rays).__name__
             if instance == 'ObjectRays':
                 objectKey = kObjectImageZKey.format(rays.z) if rays.z != 0 else kObjectImageKey
+                self.graphicGroups.setdefault(objectKey, [])
                 if self.path.showObject:
-                    self.graphicGroups[objectKey] = [ObjectGraphic(rays.yMax * 2, x=rays.z,
-                                                                   color=self.designParams['objectColor'],
-                                                                   fill=self.designParams['fillObject'], label=rays.label)]
+                    self.graphicGroups[objectKey].append(ObjectGraphic(rays.yMax * 2, x=rays.z,
+                                                                       color=self.designParams['objectColor'],
+                                                                       fill=self.designParams['fillObject'], label=rays.label))
                 if self.path.showImages:
                     self.graphicGroups[objectKey].extend(self.graphicsOfConjugatePlanes(rays.yMax * 2, x=rays.z,
                                                                                         color=self.designParams['imageColor'],
                                                                                         fill=self.designParams['fillImage']))
             if instance == 'LampRays':
                 lampKey = 'Lamp (z={0:.2f})'.format(rays.z) if rays.z != 0 else kLampKey
-                self.graphicGroups[lampKey] = [LampGraphic(rays.yMax * 2, x=rays.z, label=rays.label)]
+                self.graphicGroups.setdefault(lampKey, []).append(LampGraphic(rays.yMax * 2, x=rays.z, label=rays.label))
 
     def setLinesFromRaysList(self):
         for rays in self.raysList:
@@ -227,13 +228,13 @@ class Figure:
                 if rays.z == 0:
                     self.lineGroups[kObjectImageKey].extend(rayTrace)
                 else:
-                    self.lineGroups[kObjectImageZKey.format(rays.z)] = rayTrace
+                    self.lineGroups.setdefault(kObjectImageZKey.format(rays.z), []).extend(rayTrace)
             elif instance == 'LampRays':
                 self.designParams['showObjectImage'] = False
                 if rays.z == 0:
                     self.lineGroups[kLampKey].extend(rayTrace)
                 else:
-                    self.lineGroups['Lamp (z={0:.2f})'.format(rays.z)] = rayTrace
+                    self.lineGroups.setdefault('Lamp (z={0:.2f})'.format(rays.z), []).extend(rayTrace)
             elif instance not in self.lineGroups.keys():
                 self.lineGroups[instance] = rayTrace
             else:
-- 
2.43.0


From e6f8e186e8a275f8833d0dbeb0b1e4b3e4b9a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 46/77] fix: draw the box of a Matrix where the element is

---
 raytracing/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 0e453ea..db5643a 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -154,7 +154,7 @@ class MatrixGraphic(Graphic):
         if halfHeight == float("+Inf"):
             halfHeight = self.matrix.displayHalfHeight()
 
-        return [Rectangle(xy=(self.x, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
+        return [Rectangle(xy=(0, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
 
     @property
     def apertureComponents(self):
-- 
2.43.0


From 346172fabe99036463ec8780c5a19436cc4eaba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 47/77] fix: draw the apertures of an Objective at their place
 and diameter

---
 raytracing/figure.py   | 5 ++++-
 raytracing/graphics.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 6c9a28f..bbdf099 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -731,7 +731,10 @@ class MplFigure(Figure):
                 if component.hasFixedWidth:
                     component.patch.set_transform(noScale + translation + self.axes.transData)
                 else:
-                    component.patch.set_transform(scaling + translation + self.axes.transData)
+                    origin = getattr(component, 'x', 0)  # the width is scaled in place
+                    component.patch.set_transform(transforms.Affine2D().translate(-origin, 0) + scaling
+                                                  + transforms.Affine2D().translate(origin, 0)
+                                                  + translation + self.axes.transData)
 
             if graphic.hasLabel:
                 graphic.label.patch.set_transform(translation + self.axes.transData)
diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index db5643a..e2d5ac0 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -446,7 +446,7 @@ class ObjectiveGraphic(MatrixGroupGraphic):
         z = 0
         for element in self.matrixGroup.elements:
             if element.apertureDiameter != float('+Inf'):
-                halfHeight = self.matrix.apertureDiameter / 2.0
+                halfHeight = element.apertureDiameter / 2.0
                 components.append(ApertureBars(x=z, y=halfHeight, width=element.L))
             z += element.L
 
-- 
2.43.0


From dd38b8ae48322456dbc51391b72be8075184d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 48/77] fix: forget the waists of the previous beams when a
 LaserPath is displayed again

---
 raytracing/figure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index bbdf099..bad1787 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -562,6 +562,8 @@ class Figure:
     def displayGaussianBeam(self, beams=None,
                             title=None, comments=None, backend='matplotlib', display3D=False, filepath=None):
         self.lineGroups['rays'] = []
+        self.annotations = []
+        self.points = []
         self.graphicGroups[kElementsKey] = self.graphicsOfElements
         for beam in beams:
             self.lineGroups['rays'].extend(self.beamTraceLines(beam))
-- 
2.43.0


From 94d89abdd4434bec96c973f1016a2b12be9079f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 49/77] fix: transferMatrix(upTo) at the front edge of a Matrix
 with a length raised TypeError

---
 raytracing/matrixgroup.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 0557fdb..0b2afb3 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -355,6 +355,8 @@ class MatrixGroup(Matrix):
             if element.L <= distance or areAbsolutelyAlmostEqual(element.L, distance, 1e-9):
                 transferMatrix = element * transferMatrix
                 distance -= element.L
+            elif areAbsolutelyAlmostEqual(distance, 0, 1e-9):
+                break  # "upTo" is at the front edge of this element
             else:
                 transferMatrix = element.transferMatrix(upTo=distance) * transferMatrix
                 break
-- 
2.43.0


From 2c5b57b8d9d3d4b31e053e0d402366ed3f303644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 50/77] fix: displaying axial rays with a single colour (as
 those of a lamp) raised IndexError

---
 raytracing/figure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index bad1787..c4f7441 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -420,7 +420,7 @@ class Figure:
                 continue  # nothing to plot, ray was fully blocked
 
             if maxHeight == 0:  # only axial ray
-                colorIndex = 1
+                colorIndex = 1 % len(colors)
             else:
                 colorIndex = int(np.round(
                     (y[0] + maxHeight) / (maxHeight * 2) * (len(colors) - 1)))
-- 
2.43.0


From e8b60ec55b3528f27a085c98be81c72d372c8e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 51/77] fix: hints of the beginner mode were shown in expert
 mode (and not always in beginner mode)

---
 raytracing/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/utils.py b/raytracing/utils.py
index 869a918..74eec40 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -36,10 +36,10 @@ def beginnerMode(saveToPrefs=False):
     """
 
     warnings.formatwarning = warningLineFormat
+    warnings.filterwarnings("default", category=UserWarning)  # First: the last filters have precedence
     warnings.filterwarnings("always", category=BeginnerHint)
     warnings.filterwarnings("default", category=ExpertNote)
     warnings.filterwarnings("default", category=DeprecationWarning)
-    warnings.filterwarnings("default", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "beginner"
@@ -55,10 +55,10 @@ def expertMode(saveToPrefs=False):
 
     """
     warnings.formatwarning = warningLineFormat
+    warnings.filterwarnings("once", category=UserWarning)  # First: the last filters have precedence
     warnings.filterwarnings("ignore", category=BeginnerHint)
     warnings.filterwarnings("once", category=ExpertNote)
     warnings.filterwarnings("once", category=DeprecationWarning)
-    warnings.filterwarnings("once", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "expert"
@@ -74,10 +74,10 @@ def silentMode(saveToPrefs=False):
 
     """
     warnings.formatwarning = warningLineFormat
+    warnings.filterwarnings("ignore", category=UserWarning)  # First: the last filters have precedence
     warnings.filterwarnings("ignore", category=BeginnerHint)
     warnings.filterwarnings("ignore", category=ExpertNote)
     warnings.filterwarnings("ignore", category=DeprecationWarning)
-    warnings.filterwarnings("ignore", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "silent"
-- 
2.43.0


From 79923229b9044b43149723bb7c446b72118d6d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 52/77] fix: import failed when the date of the last version
 check could not be read (as when it had no microseconds)

---
 raytracing/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raytracing/__init__.py b/raytracing/__init__.py
index fc450b2..cefae9f 100644
--- a/raytracing/__init__.py
+++ b/raytracing/__init__.py
@@ -72,7 +72,10 @@ import tempfile
 def lastCheckMoreThanADay():
     if "lastVersionCheck" in prefs:
         isoFormat = "%Y-%m-%dT%H:%M:%S.%f"
-        then = datetime.strptime(prefs["lastVersionCheck"], isoFormat)
+        try:
+            then = datetime.strptime(prefs["lastVersionCheck"], isoFormat)
+        except (TypeError, ValueError):
+            return True  # Not a date that we can read (isoformat() omits null microseconds): check again
         difference = datetime.now() - then
         if difference.days > 1:
             return True
-- 
2.43.0


From 3c6c646282f803462fc3ecce9ec61f2bc7da8271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 53/77] fix: the latest version is the highest one, not the
 last one listed by PyPI

---
 raytracing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/utils.py b/raytracing/utils.py
index 74eec40..d4d71f0 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -246,7 +246,7 @@ def checkLatestVersion(currentVersion):
         with urllib.request.urlopen(req, timeout=1) as response:
             data = json.load(response)
             versions = [ Version(version) for version in data["releases"].keys() ]
-            latestVersion = versions[-1]
+            latestVersion = max(versions)  # They are in no particular order
             if Version(currentVersion) < latestVersion:
                 print("Latest version {0} available on PyPi (you are using {1}).".format(latestVersion, currentVersion))
                 print("run `pip install --upgrade raytracing` to update.")
-- 
2.43.0


From 4357a350b7a45f020a2e5ff3cb4154f325ead4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 54/77] fix: import failed when the preferences could not be
 read or written (read-only folder, full disk)

---
 raytracing/__init__.py    | 19 ++++++++++++++-----
 raytracing/preferences.py |  5 ++++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/raytracing/__init__.py b/raytracing/__init__.py
index cefae9f..1dbcfb1 100644
--- a/raytracing/__init__.py
+++ b/raytracing/__init__.py
@@ -74,7 +74,7 @@ def lastCheckMoreThanADay():
         isoFormat = "%Y-%m-%dT%H:%M:%S.%f"
         try:
             then = datetime.strptime(prefs["lastVersionCheck"], isoFormat)
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OSError):
             return True  # Not a date that we can read (isoformat() omits null microseconds): check again
         difference = datetime.now() - then
         if difference.days > 1:
@@ -85,16 +85,25 @@ def lastCheckMoreThanADay():
         return True
 
 
+def saveToPreferences(key, value):
+    try:
+        prefs[key] = value
+    except OSError:
+        pass  # The preferences cannot be written: they are not needed to import the module
+
+
 prefs = Preferences()
 if lastCheckMoreThanADay():
     checkLatestVersion(currentVersion=__version__)
-    prefs["lastVersionCheck"] = datetime.now().isoformat()
+    saveToPreferences("lastVersionCheck", datetime.now().isoformat())
 
 if "RAYTRACING_EXPERT" in os.environ:
-    prefs["mode"] = "expert"
+    saveToPreferences("mode", "expert")
     
 try:
-    if "mode" in prefs:
+    if "RAYTRACING_EXPERT" in os.environ:
+        expertMode()
+    elif "mode" in prefs:
         if prefs["mode"] == "silent":
             silentMode()
         elif prefs["mode"] == "expert":
@@ -105,7 +114,7 @@ try:
         beginnerMode(saveToPrefs=True)
 
 except Exception as err:
-    beginnerMode(saveToPrefs=True)
+    beginnerMode(saveToPrefs=False)
     pass
 
 
diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index b3d7e8c..1032686 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -24,7 +24,10 @@ class Preferences(dict):
             prefDir = "."
 
         self.path = os.path.join(prefDir, prefFilename)
-        self.readFromDisk()
+        try:
+            self.readFromDisk()
+        except OSError:
+            pass  # They cannot be read, or a first file cannot be written: start without any
         self.update(*args, **kwargs)
 
     def update(self, *args, **kwargs):
-- 
2.43.0


From 36b36ee4ecc9d3d2f4918f282bb551355fcff619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 55/77] fix: displaying a Space or an element without vertices
 failed

---
 raytracing/graphics.py | 24 ++++++++++++++++--------
 raytracing/matrix.py   |  7 +++++--
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index e2d5ac0..fb0ea4d 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -174,8 +174,12 @@ class MatrixGraphic(Graphic):
 
     @property
     def verticesPoints(self) -> List[Point]:
-        return [Point(self.x + self.matrix.frontVertex, y=self.halfHeight * 0.1, text='$V_f$', color='0.5'),
-                Point(self.x + self.matrix.backVertex, y=self.halfHeight * 0.1, text='$V_b$', color='0.5')]
+        points = []
+        if self.matrix.frontVertex is not None:
+            points.append(Point(self.x + self.matrix.frontVertex, y=self.halfHeight * 0.1, text='$V_f$', color='0.5'))
+        if self.matrix.backVertex is not None:
+            points.append(Point(self.x + self.matrix.backVertex, y=self.halfHeight * 0.1, text='$V_b$', color='0.5'))
+        return points
 
     @property
     def pointsOfInterest(self):
@@ -223,14 +227,18 @@ class MatrixGraphic(Graphic):
 
         # Front vertex to front focal spot (front focal length or FFL)
         h = halfHeight * 0.7
-        self.annotations.append(ArrowAnnotation(A=(self.matrix.frontVertex, h), B=(F1, h)))
-        self.points.append(Point((self.matrix.frontVertex + F1) / 2, h*1.06, 'FFL = {0:0.1f}'.format(FFL),
-                                 hasMarker=False))
+        if self.matrix.frontVertex is not None:
+            frontVertex = self.x + self.matrix.frontVertex
+            self.annotations.append(ArrowAnnotation(A=(frontVertex, h), B=(F1, h)))
+            self.points.append(Point((frontVertex + F1) / 2, h*1.06, 'FFL = {0:0.1f}'.format(FFL),
+                                     hasMarker=False))
 
         # Back vertex to back focal spot (back focal length or BFL)
-        self.annotations.append(ArrowAnnotation(A=(self.matrix.backVertex, -h), B=(F2, -h)))
-        self.points.append(Point((self.matrix.backVertex + F2) / 2, -0.94*h, 'BFL = {0:0.1f}'.format(BFL),
-                                 hasMarker=False))
+        if self.matrix.backVertex is not None:
+            backVertex = self.x + self.matrix.backVertex
+            self.annotations.append(ArrowAnnotation(A=(backVertex, -h), B=(F2, -h)))
+            self.points.append(Point((backVertex + F2) / 2, -0.94*h, 'BFL = {0:0.1f}'.format(BFL),
+                                     hasMarker=False))
 
     def display(self):
         """ Display this component, without any ray tracing but with
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index a14f65b..a3bdd94 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1431,8 +1431,11 @@ class Matrix(object):
         return halfHeight
 
     def display(self):
-        from .figure import GraphicOf
-        return GraphicOf(self).display()
+        from .figure import GraphicOf, MatrixGraphic
+        graphic = GraphicOf(self)
+        if graphic is None:  # A Space has no graphic within a path
+            graphic = MatrixGraphic(self)
+        return graphic.display()
 
     def __str__(self):
         """ String description that allows the use of print(Matrix())
-- 
2.43.0


From 665fb916bc929b56f69adf43ec3f98cba56b3271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 56/77] fix: the efficiency report ignored the index of
 refraction of the object in its invariants

---
 raytracing/imagingpath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 6682230..4dc6dd9 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -863,7 +863,7 @@ class ImagingPath(MatrixGroup):
                                  thetaMax=maxAngle,
                                  thetaMin=-maxAngle,
                                  maxCount=nRays)
-        Is = maxHeight * maxAngle
+        Is = self.frontIndex * maxHeight * maxAngle
 
         expectedBlocked = []
         notBlocked = []
@@ -886,12 +886,12 @@ class ImagingPath(MatrixGroup):
 
         print("Optical System Properties for {0}".format(self.label))
         print("---------------------------------------------------")
-        print(" Lagrange invariant: {0:.2f} mm = {1:.2f} mm ⨉ {2:.2f} ≈ 1/2 FOV ⨉ NA".format(Iap, principal.y, axial.theta))
+        print(" Lagrange invariant: {0:.2f} mm = {1:.2f} mm ⨉ {2:.2f} ≈ 1/2 FOV ⨉ NA".format(Iap, principal.y, self.frontIndex * axial.theta))
         print(" Object-side NA is {0:.2f}, and f/# is {1:.2f} ".format(self.NA(), self.fNumber()))
         print(" Field of view is {0:.2f} mm".format(self.fieldOfView()))        
         print("\nSource Properties")
         print("-------------------")
-        print(" Object/source equivalent invariant: {0:.2f} mm = {1:.2f} mm ⨉ {2:.2f} ≈ height ⨉ half-angle".format(Is, maxHeight, maxAngle))
+        print(" Object/source equivalent invariant: {0:.2f} mm = {1:.2f} mm ⨉ {2:.2f} ≈ height ⨉ half-angle".format(Is, maxHeight, self.frontIndex * maxAngle))
         print("\nEfficiency")
         print("----------")
         print(" Collection efficiency from Monte Carlo: {0:.1f}% of ±{2:.2f} radian, over field diameter of {1:.1f} mm".format(100*len(notBlocked)/sourceRays.maxCount, 2*maxHeight, maxAngle))
-- 
2.43.0


From 66e2f1c21672b39a2031fe8a0b655380b83258b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 57/77] fix: the efficiency report failed when no ray goes
 through, and left out single rays

---
 raytracing/imagingpath.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 4dc6dd9..48c726b 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -901,8 +901,9 @@ class ImagingPath(MatrixGroup):
         #print(" For 100% efficiency, the system would require an increase of {0:.2f}⨉ in detection NA with same FOV".format(Is/Iap))
         print("\nVignetting")
         print("----------")
-        print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
-        if len(vignettedBlocked) >= 2:
+        if len(vignettedBlocked) + len(notBlocked) > 0:
+            print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
+        if len(vignettedBlocked) >= 1:
             print("  Loss to vignetting: {0:.1f}%".format(100*len(vignettedBlocked)/(len(vignettedBlocked)+len(notBlocked))))
             print("  Vignetting is due to blockers at positions: {0}".format(set(vignettePositions)))
         else:
@@ -914,12 +915,13 @@ class ImagingPath(MatrixGroup):
         axis1.add_patch(p.Rectangle((-1,-1),2, 2, color=(0, 1.0, 0, 0.5), lw=3, fill=False,
                               transform=axis1.transData, clip_on=True))
 
-        (x,y) = list(zip(*notBlocked))
-        plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
-        if len(vignettedBlocked) >= 2:
+        if len(notBlocked) >= 1:
+            (x,y) = list(zip(*notBlocked))
+            plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
+        if len(vignettedBlocked) >= 1:
             (x,y) = list(zip(*vignettedBlocked))
             plt.scatter(x,y, color=(1,0,0), marker='.',label="Vignetted")
-        if len(expectedBlocked) >= 2:
+        if len(expectedBlocked) >= 1:
             (x,y) = list(zip(*expectedBlocked))
             plt.scatter(x,y, color=(0.5,0.5,0.5), marker='.',label="Blocked")
         axis1.set_xlabel("$B$\n\nFigure: Each point is a ray emitted from the source.", fontsize=13*fontScale)
-- 
2.43.0


From 778243cff550726ae4ca58576f56c751d3b3ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 58/77] fix: the largest diameter of a Lens was 4, or half its
 diameter once displayed

---
 raytracing/matrix.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index a3bdd94..45ca220 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1542,18 +1542,6 @@ class Lens(Matrix):
             self._physicalHalfHeight = self.apertureDiameter/2  # real half height
         return self._physicalHalfHeight
 
-    @property
-    def largestDiameter(self):
-        """ Largest diameter for a group of elements
-
-        Returns
-        -------
-        LargestDiameter : float
-            Largest diameter of the element or group of elements. For a `Matrix`
-            this will simply be the aperture diameter of this element.
-        """
-        return self._physicalHalfHeight
-
 
 class CurvedMirror(Matrix):
     r"""A curved mirror of radius R and infinite or finite diameter.
-- 
2.43.0


From 3755d71190c2fca4b4e8e7fe8dce47bc8c03eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 59/77] fix: rays lost their wavelength when they were traced

---
 raytracing/matrix.py | 2 +-
 raytracing/ray.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 45ca220..6641702 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -401,7 +401,7 @@ class Matrix(object):
         as "isBlocked = True" but the propagation can still be calculated.
         """
 
-        outputRay = Ray()
+        outputRay = Ray(wavelength=rightSideRay.wavelength)
 
         if rightSideRay.isBlocked:
             outputRay = rightSideRay
diff --git a/raytracing/ray.py b/raytracing/ray.py
index 34de077..05c4c1d 100644
--- a/raytracing/ray.py
+++ b/raytracing/ray.py
@@ -200,7 +200,7 @@ class Ray:
         raytracing.Ray.along()
 
         """
-        outputRay = Ray(y=self.y + (z-self.z) * self.theta, theta=self.theta, z=z)
+        outputRay = Ray(y=self.y + (z-self.z) * self.theta, theta=self.theta, z=z, wavelength=self.wavelength)
         if self.isBlocked:
             outputRay.isBlocked = True
         return outputRay
-- 
2.43.0


From 20c9934437c01739671fd327c53674a2b928f83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 60/77] fix: the description of a GaussianBeam had its
 wavelength in pm, called nm

---
 raytracing/gaussianbeam.py | 2 +-
 raytracing/matrix.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/gaussianbeam.py b/raytracing/gaussianbeam.py
index 579f4eb..6fe70f2 100644
--- a/raytracing/gaussianbeam.py
+++ b/raytracing/gaussianbeam.py
@@ -145,7 +145,7 @@ class GaussianBeam(object):
             description += "w(z): {0:.3f}, ".format(self.w)
             description += "R(z): {0:.3f}, ".format(self.R)
             description += "z: {0:.3f}, ".format(self.z)
-            description += "λ: {0:.1f} nm\n".format(self.wavelength * 1e9)
+            description += "λ: {0:.1f} nm\n".format(self.wavelength * 1e6)  # from mm
             description += "zo: {0:.3f}, ".format(self.zo)
             description += "wo: {0:.3f}, ".format(self.wo)
             description += "wo position: {0:.3f}".format(self.waistPosition)
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 6641702..7e9ec8a 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -442,7 +442,7 @@ class Matrix(object):
         >>> B=GaussianBeam(q=complex(4.999994928425984,0.0050356572916806525),w=1,R=5,n=1)
         >>> print(M1.mul_beam(B)) #print the output properties
         Complex radius: (10+0.0201j)
-        w(z): 1.000, R(z): 10.000, z: 5.000, λ: 0.0 nm
+        w(z): 1.000, R(z): 10.000, z: 5.000, λ: 632.8 nm
         zo: 0.020, wo: 0.002, wo position: -10.000
 
         See Also
-- 
2.43.0


From 1bf0e145ee5a1a6e9dc7ab8dc1ebe0294b821930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 61/77] fix: displaying a Lens changed it (it was not equal to
 the same lens any more, and kept the height of the rays)

---
 raytracing/graphics.py | 9 +++++----
 raytracing/matrix.py   | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index fb0ea4d..bd6c548 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -290,14 +290,15 @@ class MatrixGraphic(Graphic):
 
 class LensGraphic(MatrixGraphic):
     def __init__(self, matrix, x=0.0, fixedWidth=False, minSize=0):
-        if matrix.apertureDiameter == float('+Inf') and minSize > matrix._physicalHalfHeight:
-            matrix._physicalHalfHeight = minSize
-
+        self.minSize = minSize
         super(LensGraphic, self).__init__(matrix, x=x, fixedWidth=fixedWidth)
 
     @property
     def mainComponents(self):
-        return [DoubleThinArrow(self.matrix.displayHalfHeight()*2)]
+        halfHeight = self.matrix.displayHalfHeight()
+        if self.matrix.apertureDiameter == float('+Inf'):
+            halfHeight = max(halfHeight, self.minSize)  # An infinite lens is as large as the rays are high
+        return [DoubleThinArrow(halfHeight*2)]
 
 
 class ApertureGraphic(MatrixGraphic):
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 7e9ec8a..55d73a1 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1539,7 +1539,7 @@ class Lens(Matrix):
             The half height of the optical element
         """
         if self.apertureDiameter != float('+Inf'):
-            self._physicalHalfHeight = self.apertureDiameter/2  # real half height
+            return self.apertureDiameter/2  # real half height
         return self._physicalHalfHeight
 
 
-- 
2.43.0


From 06db7038195b6498761451bb30e29948fe7f2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 62/77] fix: the largest diameter of a group counted groups
 without aperture inside of it

---
 raytracing/matrixgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 0b2afb3..84e25d2 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -498,7 +498,7 @@ class MatrixGroup(Matrix):
         if self.hasFiniteApertureDiameter():
             for element in self.elements:
                 diameter = element.largestDiameter
-                if diameter != float('+Inf') and diameter > maxDiameter:
+                if element.hasFiniteApertureDiameter() and diameter > maxDiameter:
                     maxDiameter = diameter
         elif len(self.elements) != 0:
             maxDiameter = self.elements[0].displayHalfHeight() * 2
-- 
2.43.0


From 0bc97c54ab487e6ef76312eb93eb77bdb1c00ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 63/77] fix: the command line ran other examples, or only some,
 when a number is not in the list

---
 raytracing/__main__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/raytracing/__main__.py b/raytracing/__main__.py
index 85d1e00..d17f682 100644
--- a/raytracing/__main__.py
+++ b/raytracing/__main__.py
@@ -42,7 +42,13 @@ if runExamples == 'all':
 elif runExamples == '':
     runExamples = []
 else:
-    runExamples = [int(y) for y in runExamples.split(',')]
+    try:
+        runExamples = [int(y) for y in runExamples.split(',')]
+    except ValueError:
+        ap.error("examples are numbers, separated by a comma: {0}".format(runExamples))
+    for i in runExamples:
+        if not 1 <= i <= len(examples.short):
+            ap.error("there is no example {0}: use --list".format(i))
 
 if printClasses:
     printClassHierarchy(Rays)
-- 
2.43.0


From bc675f107013b99786c898ce498da3e98886cbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 64/77] fix: displaying the entrance pupil of a telecentric
 system raised ValueError

---
 raytracing/figure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index c4f7441..40fa149 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -172,7 +172,7 @@ class Figure:
 
         if self.path.showEntrancePupil:
             (pupilPosition, pupilDiameter) = self.path.entrancePupil()
-            if pupilPosition is not None:
+            if pupilPosition is not None and abs(pupilPosition) != float('+Inf'):
                 self.graphicGroups[kElementsKey].append(self.graphicOfEntrancePupil)
 
         if self.path.showPointsOfInterest:
-- 
2.43.0


From 965a9725d94f8a80f2e9a5c1c94e75a36bfbaa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 65/77] fix: fields of view over two thirds of maxHeight were
 reported as infinite

---
 raytracing/imagingpath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 48c726b..cfb55bb 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -630,7 +630,7 @@ class ImagingPath(MatrixGroup):
 
                 y += dy
                 wasBlocked = outputChiefRay.isBlocked
-                if abs(y) > self.maxHeight and not wasBlocked:
+                if abs(chiefRay.y) > self.maxHeight and not wasBlocked:
                     return Stop(z=fieldStopPosition, diameter=fieldStopDiameter)
 
             for ray in chiefRayTrace:
@@ -748,7 +748,7 @@ class ImagingPath(MatrixGroup):
 
             y += dy
             wasBlocked = outputChiefRay.isBlocked
-            if abs(y) > self.maxHeight and not wasBlocked:
+            if abs(chiefRay.y) > self.maxHeight and not wasBlocked:
                 return float("+Inf")
 
         return chiefRay.y
-- 
2.43.0


From 529451d3388dd546f14b72dde21138c7634fa486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 66/77] fix: transferMatrix(upTo) at the front edge of a nested
 group left out its zero-length elements

---
 raytracing/matrixgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 84e25d2..2609d51 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -355,7 +355,7 @@ class MatrixGroup(Matrix):
             if element.L <= distance or areAbsolutelyAlmostEqual(element.L, distance, 1e-9):
                 transferMatrix = element * transferMatrix
                 distance -= element.L
-            elif areAbsolutelyAlmostEqual(distance, 0, 1e-9):
+            elif areAbsolutelyAlmostEqual(distance, 0, 1e-9) and not isinstance(element, MatrixGroup):
                 break  # "upTo" is at the front edge of this element
             else:
                 transferMatrix = element.transferMatrix(upTo=distance) * transferMatrix
-- 
2.43.0


From 11cb56bd7b459a074372cc253a3b4857b8fa6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 67/77] fix: a histogram asked again after it was refused
 returned the one before it

---
 raytracing/rays.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index f4c120b..03853de 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -192,8 +192,6 @@ class Rays:
             maxValue = max(self.yValues)
 
         if self._countHistogramParameters != (binCount, minValue, maxValue):
-            self._countHistogramParameters = (binCount, minValue, maxValue)
-
             (self._yHistogram, binEdges) = np.histogram(self.yValues,
                                                      bins=binCount,
                                                      range=(minValue, maxValue))
@@ -202,6 +200,7 @@ class Rays:
             for i in range(len(binEdges) - 1):
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesCountHistogram = xValues
+            self._countHistogramParameters = (binCount, minValue, maxValue)
 
         return (self._xValuesCountHistogram[:], self._yHistogram[:])
 
@@ -272,14 +271,13 @@ class Rays:
             maxValue = max(self.thetaValues)
 
         if self._anglesHistogramParameters != (binCount, minValue, maxValue):
-            self._anglesHistogramParameters = (binCount, minValue, maxValue)
-
             (self._thetaHistogram, binEdges) = np.histogram(self.thetaValues, bins=binCount, range=(minValue, maxValue))
             self._thetaHistogram = list(self._thetaHistogram)
             xValues = []
             for i in range(len(binEdges) - 1):
                 xValues.append((binEdges[i] + binEdges[i + 1]) / 2)
             self._xValuesAnglesHistogram = xValues
+            self._anglesHistogramParameters = (binCount, minValue, maxValue)
 
         return (self._xValuesAnglesHistogram[:], self._thetaHistogram[:])
 
-- 
2.43.0


From 42c9f1480ccf40cd44eb3ae955b76d6da4fdbc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 68/77] fix: histograms of rays at the same place, rounding
 errors aside, raised ValueError

---
 raytracing/rays.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 03853de..6a498ea 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -185,6 +185,9 @@ class Rays:
         if binCount is None:
             binCount = 40
 
+        if minValue is None and maxValue is None:
+            (minValue, maxValue) = self._histogramRange(self.yValues)
+
         if minValue is None:
             minValue = min(self.yValues)
 
@@ -204,6 +207,17 @@ class Rays:
 
         return (self._xValuesCountHistogram[:], self._yHistogram[:])
 
+    @staticmethod
+    def _histogramRange(values):
+        """ From the smallest to the largest value. Values that are all the same, rounding errors
+        aside (as those of the rays at the image of a point), cannot be split: they are put in the
+        middle of a range of 1, as histogram() does when they are exactly the same. """
+        (minValue, maxValue) = (min(values), max(values))
+        if maxValue - minValue <= 1e-12 * max(abs(minValue), abs(maxValue)):
+            middle = (minValue + maxValue) / 2
+            return (middle - 0.5, middle + 0.5)
+        return (minValue, maxValue)
+
     def rayAnglesHistogram(self, binCount=None, minValue=None, maxValue=None):
 
         """ This functions calculates the histogram for the angle of the rays.
@@ -264,6 +278,9 @@ class Rays:
         if binCount is None:
             binCount = 40
 
+        if minValue is None and maxValue is None:
+            (minValue, maxValue) = self._histogramRange(self.thetaValues)
+
         if minValue is None:
             minValue = min(self.thetaValues)
 
-- 
2.43.0


From 5a305c271fe35e69f06f3dff8443deb68d96cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 69/77] fix: the comments given to LaserCavity.display() were
 not shown

---
 raytracing/lasercavity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 0626c43..0de151b 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -123,6 +123,6 @@ class LaserCavity(LaserPath):
 
         if not self.isStable:
             warnings.warn("`LaserCavity.display()` called with an unstable cavity. No beam will be drawn.", BeginnerHint)
-            super(LaserCavity, self).display(beams=[])
+            super(LaserCavity, self).display(beams=[], comments=comments)
         else:
-            super(LaserCavity, self).display(beams=self.laserModes())
+            super(LaserCavity, self).display(beams=self.laserModes(), comments=comments)
-- 
2.43.0


From 1e0baaea65ad11c705ee218e1dba398f3262ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 70/77] fix: a compound lens without power could not be
 displayed

---
 raytracing/specialtylenses.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 92ec2b1..316efde 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -40,7 +40,12 @@ class CompoundLens(MatrixGroup):
             The position
         """
         (f1, f2) = self.focusPositions(z)
-        return [{'z': f1, 'label': '$F_f$'}, {'z': f2, 'label': '$F_b$'}]
+        pointsOfInterest = []
+        if f1 is not None:
+            pointsOfInterest.append({'z': f1, 'label': '$F_f$'})
+        if f2 is not None:
+            pointsOfInterest.append({'z': f2, 'label': '$F_b$'})
+        return pointsOfInterest
 
     @property
     def forwardSurfaces(self) -> List[Interface]:
-- 
2.43.0


From eeab1c2eb43ba88dc0f899297e5d85f569b5cf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 71/77] fix: labels of an interactive figure overlapped until
 it was zoomed, since they were placed before the axes were made narrower

---
 raytracing/figure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 40fa149..0ef4a47 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -641,6 +641,7 @@ class MplFigure(Figure):
         if interactive:
             plt.subplots_adjust(right=0.81)
             self.initVisibilityCheckBoxes()
+            self.updateLabels()  # labels are wider, in data units, when the axes are narrower
 
         if filepath is not None:
             self.figure.savefig(filepath, dpi=600)
-- 
2.43.0


From f15e7e1612a6c797c22487e1507c58f369cc670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 72/77] fix: a label that overlaps two others was moved twice
 from its first place, possibly out of the view

---
 raytracing/figure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 0ef4a47..c2ace73 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -794,6 +794,8 @@ class MplFigure(Figure):
 
                     self.translateLabel(labels[a], boxA, dx=-requiredSpacing / 2)
                     self.translateLabel(labels[b], boxB, dx=requiredSpacing / 2)
+                    for label in (a, b):
+                        boxes[label] = labels[label].boundingBox(self.axes, self.figure)
 
             i += 1
             if noOverlap:
-- 
2.43.0


From b1436887a9345e329506080ba2cc5ce9951307c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 73/77] fix: design(onlyAxialRay=True) was ignored

---
 raytracing/imagingpath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index cfb55bb..1cf9f1a 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -1001,8 +1001,9 @@ class ImagingPath(MatrixGroup):
             fanAngle = self.fanAngle
             if fanAngle is None:
                 fanAngle = np.tan(self.figure.displayRange / 2 / self.L / 5)
+            fanNumber = 1 if self.figure.designParams['onlyAxialRay'] else self.fanNumber
             defaultObject = ObjectRays(self.objectHeight, z=self.objectPosition,
-                                       halfAngle=fanAngle, T=self.rayNumber, H=self.fanNumber)
+                                       halfAngle=fanAngle, T=self.rayNumber, H=fanNumber)
             raysList.append(defaultObject)
         else:
             self.figure.designParams['showObjectImage'] = True
-- 
2.43.0


From 08f9853da97ac44ee7301af12d8c8e345b7c2573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:27 +0000
Subject: [PATCH 74/77] fix: edge thickness of lenses with a flat face was nan
 and never checked

---
 raytracing/specialtylenses.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 316efde..c3ff8a5 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -218,11 +218,11 @@ class AchromatDoubletLens(CompoundLens):
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
-        phi1 = math.asin(h / abs(self.R1))
-        corner1 = self.frontVertex + self.R1 * (1.0 - math.cos(phi1))
+        phi1 = math.asin(h / self.R1)
+        corner1 = self.frontVertex + h * math.tan(phi1 / 2)
 
-        phi3 = math.asin(h / abs(self.R3))
-        corner3 = self.backVertex + self.R3 * (1.0 - math.cos(phi3))
+        phi3 = math.asin(h / self.R3)
+        corner3 = self.backVertex + h * math.tan(phi3 / 2)
         if abs(((corner3 - corner1) / self.te) - 1.0) > 0.05:
             msg = "Doublet {2}: obtained thickness {0:.1f} does not match expected " \
                   "{1:0.1f}".format(corner3 - corner1, self.te, self.label)
@@ -329,11 +329,11 @@ class SingletLens(CompoundLens):
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
-        phi1 = math.asin(h / abs(self.R1))
-        corner1 = self.frontVertex + self.R1 * (1.0 - math.cos(phi1))
+        phi1 = math.asin(h / self.R1)
+        corner1 = self.frontVertex + h * math.tan(phi1 / 2)
 
-        phi2 = math.asin(h / abs(self.R2))
-        corner2 = self.backVertex + self.R2 * (1.0 - math.cos(phi2))
+        phi2 = math.asin(h / self.R2)
+        corner2 = self.backVertex + h * math.tan(phi2 / 2)
         if abs(((corner2 - corner1) / self.te) - 1.0) > 0.05:
             msg = "Singlet {2}: obtained thickness {0:.1f} does not match expected " \
                   "{1:0.1f}".format(corner2 - corner1, self.te, self.label)
-- 
2.43.0


From bfafe638594b708e5cbd1d051f7117831ca5f3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:27 +0000
Subject: [PATCH 75/77] fix: spaces to a focus or a conjugate were not taken
 for spaces: rays could not start inside of them

---
 raytracing/figure.py      | 2 +-
 raytracing/imagingpath.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index c2ace73..e6067d7 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -286,7 +286,7 @@ class Figure:
         # Points of interest for each element
         zElement = 0
         groupIndex = 0
-        physicalElements = [element for element in self.path.elements if type(element).__name__ != 'Space']
+        physicalElements = [element for element in self.path.elements if not isinstance(element, Space)]
 
         for element in self.path.elements:
             pointsOfInterest = element.pointsOfInterest(zElement)
diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 1cf9f1a..8bb5e86 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -941,7 +941,7 @@ class ImagingPath(MatrixGroup):
         z = 0
         for i, element in enumerate(self.elements):
             if z < zStart < z + element.L:
-                assert type(element).__name__ == 'Space', 'The position of the rays cannot be in the same ' \
+                assert isinstance(element, Space), 'The position of the rays cannot be in the same ' \
                                                           'position of another element.'
                 if backwards:
                     newElements = [Space(zStart - z, n=element.frontIndex)]
-- 
2.43.0


From 4b9e3445677e1c3f0f0b12af9d0c5d5da4a66084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:27 +0000
Subject: [PATCH 76/77] fix: a Material defined by the user made findByIndex()
 and findByName() raise KeyError

---
 raytracing/materials.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 1b9851d..0d1dbb2 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -101,10 +101,9 @@ class Material:
             return Air()
 
         simplifiedName = name.replace('-','')
-        for className in Material.all():
-            shortName = className.replace('_','')
+        for cls in Material.__subclasses__():
+            shortName = cls.__name__.replace('_','')
             if areTheSame(simplifiedName, shortName):
-                cls = globals()[className]
                 return cls()
 
         raise ValueError("The requested material '{0}' is not recognized \
@@ -115,11 +114,11 @@ subclass of Material, see materials.py for examples.".format(name, Material.all(
     def findByIndex(cls, n, wavelength, tolerance=0.05):
         """ Identify the material based on a index value and a tolerance."""
         match = []
-        for materialName in cls.all():
-            mat = globals()[materialName]()
+        for materialClass in cls.__subclasses__():
+            mat = materialClass()
             nmat = mat.n(wavelength)
             if abs(n-nmat) < tolerance:
-                match.append((materialName, nmat, mat.abbeNumber()))
+                match.append((materialClass.__name__, nmat, mat.abbeNumber()))
         return match
 
 class Air(Material):
-- 
2.43.0


From 62591b0c5704b52640183d31c73804d1aeff5794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:24 +0000
Subject: [PATCH 77/77] fix: the size of a beam is drawn in the spaces of
 nested groups

---
 raytracing/figure.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index e6067d7..3f12b6f 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -443,11 +443,16 @@ class Figure:
         """
         from .imagingpath import ImagingPath  # Fixme: circular import fix
         from .matrix import Space
+        from .matrixgroup import MatrixGroup
 
         N = 100
         highResolution = ImagingPath()
-        for element in self.path.elements:
-            if isinstance(element, Space):
+        elements = list(self.path.elements)
+        while elements:
+            element = elements.pop(0)
+            if isinstance(element, MatrixGroup):
+                elements[:0] = element.elements  # The beam also expands in the spaces inside a group
+            elif isinstance(element, Space):
                 for i in range(N):
                     highResolution.append(Space(d=element.L / N,
                                                 n=element.frontIndex))
-- 
2.43.0

