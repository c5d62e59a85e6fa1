From 092ae3cec870c5adf12df816bbc2c7406d26b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 001/153] fix: blank-field lookahead read past the end of the
 card

---
 Nastran/NastranTokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 71eb511..90adf4c 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -263,6 +263,9 @@ bool NastranTokenizer::isNextEmpty(int n) {
             result = false;
             break;
         }
+        if (currentField + i >= currentLineVector.size()) {
+            break; // fields beyond the end of the card are blank
+        }
         string curField = trim_copy(currentLineVector[currentField + i]);
         result &= curField.empty();
     }
-- 
2.43.0


From 8bf3df79ac18d16653eae3e85ff75c4adf8bdbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 002/153] fix: THRU ... BY lists started one after their first
 item

---
 Nastran/NastranTokenizer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 90adf4c..dc05170 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -484,9 +484,12 @@ list<int> NastranTokenizer::nextInts() {
                 skip(1);
                 step = nextInt();
             }
-            for(int i=start+1;i<=endint;i+=step) {
+            for(int i=start+step;i<=endint;i+=step) {
                 result.push_back(i);
             }
+            if (result.back() != endint) {
+                result.push_back(endint); // the last item always belongs to the list
+            }
         }
 	}
 	return result;
-- 
2.43.0


From d6084135acb97830c7337f28e4f59f2b4528f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 003/153] fix: shells with different offsets or properties were
 merged when split by offset

---
 Abstract/Model.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index e3eb356..f56207d 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2133,8 +2133,9 @@ void Model::splitElementsByCellOffsets() {
         if (not shell->containsNonzeroOffsetCell())
             continue;
         elementSetsToRemove.push_back(shell);
+        cellPositionsByRoundedOffset.clear();
         for (const Cell& cell : shell->getCellsIncludingGroups()) {
-            long offsetRounded = lround(pow(cell.offset,6));
+            long offsetRounded = lround(cell.offset * 1e6);
             const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
             if (it == cellPositionsByRoundedOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = shell->clone();
@@ -2149,15 +2150,15 @@ void Model::splitElementsByCellOffsets() {
             }
         }
     }
-    cellPositionsByRoundedOffset.clear();
 
     for (const auto& elementSet : elementSets.filter(ElementSet::Type::COMPOSITE)) {
         const auto& composite = static_pointer_cast<Composite>(elementSet);
         if (not composite->containsNonzeroOffsetCell())
             continue;
         elementSetsToRemove.push_back(composite);
+        cellPositionsByRoundedOffset.clear();
         for (const Cell& cell : composite->getCellsIncludingGroups()) {
-            long offsetRounded = lround(pow(cell.offset,6));
+            long offsetRounded = lround(cell.offset * 1e6);
             const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
             if (it == cellPositionsByRoundedOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = composite->clone();
-- 
2.43.0


From cfe3734c5210156919889e3293dc435f0d878d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 004/153] fix: PBAR shear factors of the two bending planes
 were exchanged

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index fa2ccab..00912d9 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2117,8 +2117,8 @@ void NastranParser::parsePBAR(NastranTokenizer& tok, Model& model) {
 
     // K1, K2: Area factors for shear. VEGA works with 1/K1 and 1/K2
     // Default values is infinite
-    const double k1 = tok.nextDouble(true); // K1 = Kzz
-    const double k2 = tok.nextDouble(true); // K2 = Kyy
+    const double k1 = tok.nextDouble(true); // K1: shear in plane 1 (x,y)
+    const double k2 = tok.nextDouble(true); // K2: shear in plane 2 (x,z)
     double invk1, invk2;
     if (is_equal(k1, Globals::UNAVAILABLE_DOUBLE)){
         invk1= 0.0;
@@ -2136,7 +2136,7 @@ void NastranParser::parsePBAR(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("PBAR i12 not implemented.", tok, model);
     }
 
-    const auto& genericSectionBeam = make_shared<GenericSectionBeam>(model, area, i2, i1, j, invk2, invk1, Beam::BeamModel::TIMOSHENKO, nsm,
+    const auto& genericSectionBeam = make_shared<GenericSectionBeam>(model, area, i2, i1, j, invk1, invk2, Beam::BeamModel::TIMOSHENKO, nsm,
             elemId);
     genericSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
     genericSectionBeam->add(*getOrCreateCellGroup(elemId, model, "PBAR"));
-- 
2.43.0


From 8fa0a5fc4ecadd56dc688855fbf35a1edc2b8064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 005/153] fix: TUBE sections were written with their inner
 radius as outer radius

---
 Abstract/Element.cpp      | 6 +++---
 Nastran/NastranParser.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index e8a46b3..3a81826 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -247,11 +247,11 @@ unique_ptr<ElementSet> TubeSectionBeam::clone() const {
 }
 
 double TubeSectionBeam::getAreaCrossSection() const {
-	return M_PI * (pow(radius, 2) - pow(thickness, 2)) ;
+	return M_PI * (pow(radius, 2) - pow(radius - thickness, 2));
 }
 
 double TubeSectionBeam::getMomentOfInertiaY() const {
-	return (pow(radius, 4) - pow(thickness, 4)) * M_PI / 4;
+	return (pow(radius, 4) - pow(radius - thickness, 4)) * M_PI / 4;
 }
 
 double TubeSectionBeam::getMomentOfInertiaZ() const {
@@ -260,7 +260,7 @@ double TubeSectionBeam::getMomentOfInertiaZ() const {
 
 double TubeSectionBeam::getTorsionalConstant() const {
 	// http://en.wikipedia.org/wiki/Torsion_constant
-	return (pow(radius, 4) - pow(thickness, 4)) * M_PI / 2;
+	return (pow(radius, 4) - pow(radius - thickness, 4)) * M_PI / 2;
 }
 
 double TubeSectionBeam::getShearAreaFactorY() const {
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 00912d9..1470fb5 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2191,7 +2191,7 @@ void NastranParser::parsePBARL(NastranTokenizer& tok, Model& model) {
         double extRadius = tok.nextDouble();
         double intRadius = tok.nextDouble();
         nsm = tok.nextDouble(true, 0.0);
-        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, intRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, propertyId);
+        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, extRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, propertyId);
         tubeSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
         tubeSectionBeam->add(*getOrCreateCellGroup(propertyId, model, "PBARL"));
         tubeSectionBeam->setInputContext(tok.getInputContext());
@@ -2369,7 +2369,7 @@ void NastranParser::parsePBEAML(NastranTokenizer& tok, Model& model) {
         double extRadius = tok.nextDouble();
         double intRadius = tok.nextDouble();
         nsm = tok.nextDouble(true, 0.0);
-        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, intRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, pid);
+        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, extRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, pid);
         tubeSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
         tubeSectionBeam->add(*getOrCreateCellGroup(pid, model,"PBEAML"));
         tubeSectionBeam->setInputContext(tok.getInputContext());
-- 
2.43.0


From 6b08d547c2a5732582dc25717324be4d0ceb41b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 006/153] fix: composite offset is the distance from the
 reference plane to the mid-plane

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 1470fb5..26b0a47 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2609,9 +2609,9 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
         composite->addLayer(Reference<Material>(Material::Type::MATERIAL,midn), tn, thetan);
     }
     if (is_equal(z0, Globals::UNAVAILABLE_DOUBLE)) {
-        composite->offset = composite->getTotalThickness() / 2.0; // default -1/2 element thickness
+        composite->offset = 0.0; // default z0 is -1/2 element thickness
     } else {
-        composite->offset = z0;
+        composite->offset = z0 + composite->getTotalThickness() / 2.0;
     }
     composite->setInputContext(tok.getInputContext());
     composite->add(*getOrCreateCellGroup(pid, model, "PCOMP"));
-- 
2.43.0


From 10d5841e93a7e84d3aefba74de8022c83c8c66cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 007/153] fix: PCOMP laminate options and default ply angle

---
 Nastran/NastranParser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 26b0a47..f7c1158 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2577,15 +2577,15 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
         laminateOption = Composite::LaminateOption::FULL;
     } else if (lam == "SYM") {
         laminateOption = Composite::LaminateOption::SYM;
-    } else if (ft == "HCS") {
+    } else if (lam == "HCS") {
         laminateOption = Composite::LaminateOption::HCS;
-    } else if (ft == "FCS") {
+    } else if (lam == "FCS") {
         laminateOption = Composite::LaminateOption::FCS;
-    } else if (ft == "ACS") {
+    } else if (lam == "ACS") {
         laminateOption = Composite::LaminateOption::ACS;
-    } else if (ft == "SME") {
+    } else if (lam == "SME") {
         laminateOption = Composite::LaminateOption::SME;
-    } else if (ft == "SMC") {
+    } else if (lam == "SMC") {
         laminateOption = Composite::LaminateOption::SMC;
     } else {
         handleParsingError("PCOMP LAM value: " + lam + " not yet handled", tok, model);
@@ -2604,7 +2604,7 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
         int midn = tok.nextInt(true, mid1);
         composite->assignMaterial(Reference<Material>(Material::Type::MATERIAL,midn));
         double tn = tok.nextDouble(true, t1);
-        double thetan = tok.nextDouble(true, theta1);
+        double thetan = tok.nextDouble(true, 0.0);
         tok.skip(1); // SOUTn
         composite->addLayer(Reference<Material>(Material::Type::MATERIAL,midn), tn, thetan);
     }
-- 
2.43.0


From 58f291a76eb1a2947f28d9f1c8e7576e7022c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 008/153] fix: shells of one property with several offsets kept
 the same identifier

---
 Abstract/Model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index f56207d..c563d48 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2141,6 +2141,8 @@ void Model::splitElementsByCellOffsets() {
                 const shared_ptr<ElementSet>& clonedElement = shell->clone();
                 const auto& clonedShell = dynamic_pointer_cast<Shell>(clonedElement);
                 clonedShell->clear();
+                if (not cellPositionsByRoundedOffset.empty())
+                    clonedShell->resetId(); // only one part can keep the original id
                 clonedShell->offset = shell->offset + cell.offset;
                 clonedShell->add(cell);
                 cellPositionsByRoundedOffset[offsetRounded] = clonedShell;
@@ -2164,6 +2166,8 @@ void Model::splitElementsByCellOffsets() {
                 const shared_ptr<ElementSet>& clonedElement = composite->clone();
                 const auto& clonedComposite = static_pointer_cast<Composite>(clonedElement);
                 clonedComposite->clear();
+                if (not cellPositionsByRoundedOffset.empty())
+                    clonedComposite->resetId(); // only one part can keep the original id
                 clonedComposite->offset = composite->offset + cell.offset;
                 clonedComposite->add(cell);
                 cellPositionsByRoundedOffset[offsetRounded] = clonedComposite;
-- 
2.43.0


From 9551c5e8c3c51371368d9c8d31c17217ed2e01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 009/153] fix: beams of TUBE sections were left out of SYSTUS
 elements

---
 Systus/SystusWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 5cb70f4..1ad0810 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -430,6 +430,7 @@ void SystusWriter::getSystusAutomaticOption(const SystusModel& systusModel, Syst
         case ElementSet::Type::CIRCULAR_SECTION_BEAM:
         case ElementSet::Type::GENERIC_SECTION_BEAM:
         case ElementSet::Type::I_SECTION_BEAM:
+        case ElementSet::Type::TUBE_SECTION_BEAM:
         case ElementSet::Type::RECTANGULAR_SECTION_BEAM: {
             const auto& beam = static_pointer_cast<const Beam>(elementSet);
             has1DOr2DElements = has1DOr2DElements or not beam->isTruss();
@@ -2742,6 +2743,7 @@ void SystusWriter::writeElements(const SystusModel& systusModel, const int idSub
         case ElementSet::Type::CIRCULAR_SECTION_BEAM:
         case ElementSet::Type::GENERIC_SECTION_BEAM:
         case ElementSet::Type::I_SECTION_BEAM:
+        case ElementSet::Type::TUBE_SECTION_BEAM:
         case ElementSet::Type::RECTANGULAR_SECTION_BEAM: {
             dim = 1;
             break;
-- 
2.43.0


From 87fd6704ef747801fd3701b53095cc05a2e9b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 010/153] fix: torsion constant of rectangles higher than wide

---
 Abstract/Element.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 3a81826..a54f047 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -298,7 +298,9 @@ double RectangularSectionBeam::getTorsionalConstant() const {
 	//	return height * pow(width, 3) / 3;
 	//}
 
-	return width*pow(height, 3)*(1.0/3 -0.21*height*(1- pow(height,4)/(12*pow(width,4)))/width);
+	const double a = std::max(width, height);
+	const double b = std::min(width, height);
+	return a*pow(b, 3)*(1.0/3 -0.21*b*(1- pow(b,4)/(12*pow(a,4)))/a);
 }
 
 double RectangularSectionBeam::getShearAreaFactorY() const {
-- 
2.43.0


From 599db17a37e8f2498745ef7e5f984c1361211831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 011/153] fix: SYSTUS element count included cells that are not
 written as elements

---
 Systus/SystusWriter.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 1ad0810..8d317b0 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -2721,7 +2721,10 @@ void SystusWriter::writeElementLocalReferentiel(const SystusModel& systusModel,
 
 void SystusWriter::writeElements(const SystusModel& systusModel, const int idSubcase, ostream& out) {
     const Mesh& mesh = systusModel.model.mesh;
-    out << "BEGIN_ELEMENTS " << mesh.countCells() << endl;
+    // not every cell of the mesh is a SYSTUS element (masses and dampers have sections of their own)
+    ostringstream oselem;
+    oselem.copyfmt(out);
+    int nbElements = 0;
     for (const auto& elementSet : systusModel.model.elementSets) {
 
         if (systusModel.model.configuration.logLevel >= LogLevel::TRACE){
@@ -2861,37 +2864,40 @@ void SystusWriter::writeElements(const SystusModel& systusModel, const int idSub
                 dim = (cell.nodeIds.size()==2) ? 1 : 0 ;
             }
 
-            out << cell.id << " " << dim << typecell;              // Dimension and type of cell;
-            out << setfill('0') << setw(2) << cell.nodeIds.size(); // Number of nodes in two caracters: 01, 02, 05, 10, etc.
+            oselem << cell.id << " " << dim << typecell;              // Dimension and type of cell;
+            oselem << setfill('0') << setw(2) << cell.nodeIds.size(); // Number of nodes in two caracters: 01, 02, 05, 10, etc.
 
             if (cell.nodeIds.size()>20){
                 cerr<< "Warning in Elements: " << cell << " has " << cell.nodeIds.size() << " but SYSTUS only support up to 20 nodes by element."<<endl;
             }
 
-            out << " " << materialIdByElementSetId[elementSet->getId()]; // Material Id
+            oselem << " " << materialIdByElementSetId[elementSet->getId()]; // Material Id
 
             // Loading List: index that describes sollicitation list (not supported yet)
             int isol = 0;
             auto it2 = loadingListIdByCellId.find(cell.id);
             if (it2 != loadingListIdByCellId.end())
                 isol = it2->second;
-            out << " " << isol;
+            oselem << " " << isol;
 
             // Local Orientation
             if (cell.hasOrientation){
-                writeElementLocalReferentiel(systusModel, dim, typecell, systusConnect, cell.cspos, out);
+                writeElementLocalReferentiel(systusModel, dim, typecell, systusConnect, cell.cspos, oselem);
             }else{
-                out << " 0";
+                oselem << " 0";
             }
 
             // Writing Nodes
             for (int node : systusConnect) {
-                out << " " << node;
+                oselem << " " << node;
             }
-            out << endl;
+            oselem << endl;
+            nbElements++;
         }
     }
 
+    out << "BEGIN_ELEMENTS " << nbElements << endl;
+    out << oselem.str();
     out << "END_ELEMENTS" << endl;
 }
 
-- 
2.43.0


From de35330dee10f88d75ce660591c56c2011b722a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 012/153] fix: Nastran output reversed the normal of triangles
 and quadrangles

---
 Nastran/NastranWriter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 0e16330..3d0ef18 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -153,11 +153,11 @@ Line& Line::add(const VectorialValue vector) noexcept {
 
 const unordered_map<CellType::Code, vector<int>, EnumClassHash> NastranWriter::med2nastranNodeConnectByCellType =
         {
-                { CellType::Code::TRI3_CODE, { 0, 2, 1 } },
-                { CellType::Code::TRI6_CODE, { 0, 2, 1, 5, 4, 3 } },
-                { CellType::Code::QUAD4_CODE, { 0, 3, 2, 1 } },
-                { CellType::Code::QUAD8_CODE, { 0, 3, 2, 1, 7, 6, 5, 4 } },
-                { CellType::Code::QUAD9_CODE, { 0, 3, 2, 1, 7, 6, 5, 4, 8 } },
+                { CellType::Code::TRI3_CODE, { 0, 1, 2 } },
+                { CellType::Code::TRI6_CODE, { 0, 1, 2, 3, 4, 5 } },
+                { CellType::Code::QUAD4_CODE, { 0, 1, 2, 3 } },
+                { CellType::Code::QUAD8_CODE, { 0, 1, 2, 3, 4, 5, 6, 7 } },
+                { CellType::Code::QUAD9_CODE, { 0, 1, 2, 3, 4, 5, 6, 7, 8 } },
                 { CellType::Code::TETRA4_CODE, { 0, 2, 1, 3 } },
                 { CellType::Code::TETRA10_CODE, { 0, 2, 1, 3, 6, 5, 4, 7, 9, 8 } },
                 { CellType::Code::PYRA5_CODE, { 0, 3, 2, 1, 4 } },
-- 
2.43.0


From 606d216bc14552e27ef709a6fe548d24257bab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 013/153] fix: Nastran output of rods had no keyword and no
 PROD card

---
 Nastran/NastranWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 3d0ef18..ac34e66 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -253,6 +253,8 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 			string keyword;
 			if (elementSet->isBeam()) {
                 keyword = isCosmic() ? "CBAR" : "CBEAM";
+            } else if (elementSet->isTruss()) {
+                keyword = "CROD";
             } else if (elementSet->isDiscrete() and cell.type.code == CellType::Code::SEG2_CODE) {
                 keyword = "CBUSH";
 			} else if (elementSet->isShell()) {
@@ -795,7 +797,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
-		out << truss;
+		out << prod;
 		truss->markAsWritten();
 	}
 	for (const auto& beam : model.getBeams()) {
-- 
2.43.0


From e2c71e5a3b1357ac47145b1c525a7939557ba7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 014/153] fix: PBAR cards were written with a PBEAM layout

---
 Nastran/NastranWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index ac34e66..ffb5bd1 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -808,7 +808,9 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		pbeam.add(beam->getAreaCrossSection());
 		pbeam.add(beam->getMomentOfInertiaZ());
 		pbeam.add(beam->getMomentOfInertiaY());
-		pbeam.add(0.0);
+		if (not isCosmic()) {
+			pbeam.add(0.0); // I12, which comes after J in PBAR
+		}
 		pbeam.add(beam->getTorsionalConstant());
 		out << pbeam;
 		beam->markAsWritten();
-- 
2.43.0


From 67cb20c4a6d1bc6a13d858b5884f5fbafa0a18fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 015/153] fix: MPC cards of Nastran output had a wrong set id
 and wrong padding from the fifth term

---
 Nastran/NastranWriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index ffb5bd1..c729a68 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -496,7 +496,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             const auto& lmpc =
                     static_pointer_cast<LinearMultiplePointConstraint>(constraint);
             Line mpc("MPC");
-            mpc.add(constraintSet->getId());
+            mpc.add(constraintSet->bestId());
             int fieldNum = 2;
 			for (const auto nodePosition : lmpc->nodePositions()) {
 			    DOFCoefs dofcoef = lmpc->getDoFCoefsForNode(nodePosition);
@@ -505,6 +505,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
                         if (fieldNum % 8 == 0) {
                             mpc.add();
                             mpc.add();
+                            fieldNum += 2;
                         }
 
                         mpc.add(model.mesh.findNodeId(nodePosition));
-- 
2.43.0


From 8489a4fddf6d5604a45d9eba3d37e5808bd66b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 016/153] fix: nodal moments made the Nastran output stop

---
 Nastran/NastranWriter.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index c729a68..87e9d15 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -745,6 +745,18 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
 
             const auto& nodalForce = static_pointer_cast<NodalForce>(loading);
             for (const auto nodePosition : nodalForce->getNodePositionsIncludingGroups()) {
+                const auto& momentVector = nodalForce->getMomentInGlobalCS(nodePosition);
+                if (!momentVector.iszero()) {
+                    Line moment("MOMENT");
+                    moment.add(loadingSet->bestId());
+                    moment.add(model.mesh.findNodeId(nodePosition));
+                    moment.add(0);
+                    moment.add(1.0);
+                    moment.add(momentVector);
+                    out << moment;
+                    if (nodalForce->getForceInGlobalCS(nodePosition).iszero())
+                        continue;
+                }
                 Line force("FORCE");
                 force.add(loadingSet->bestId());
                 force.add(model.mesh.findNodeId(nodePosition));
@@ -754,9 +766,6 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
                 force.add(forceVector.x());
                 force.add(forceVector.y());
                 force.add(forceVector.z());
-                if (!nodalForce->getMomentInGlobalCS(nodePosition).iszero()) {
-                    handleWritingError("Unimplemented moment in FORCE");
-                }
                 out << force;
             }
             nodalForce->markAsWritten();
-- 
2.43.0


From f497002aaff3e376a613309af5f3b9852196f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 017/153] fix: Nastran output lost offset and inertia of point
 masses

---
 Nastran/NastranWriter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 87e9d15..c679232 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -879,6 +879,16 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             conm2.add(model.mesh.findNodeId(nodePosition));
             conm2.add(0); // CID
             conm2.add(mass->getMass());
+            conm2.add(mass->ex);
+            conm2.add(mass->ey);
+            conm2.add(mass->ez);
+            conm2.add();
+            conm2.add(mass->ixx);
+            conm2.add(mass->ixy);
+            conm2.add(mass->iyy);
+            conm2.add(mass->ixz);
+            conm2.add(mass->iyz);
+            conm2.add(mass->izz);
             out << conm2;
             elementSet->markAsWritten();
         }
-- 
2.43.0


From 0736e64c67e4c7cdb163d9d2e66b7e61b3666d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 018/153] fix: Nastran output lost the value of enforced
 displacements

---
 Nastran/NastranWriter.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index c679232..f3d52ac 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -420,9 +420,18 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             const auto& spc = static_pointer_cast<SinglePointConstraint>(constraint);
             for (const auto nodePosition : spc->nodePositions()) {
                 const int nodeId = model.mesh.findNodeId(nodePosition);
-                out
-                        << Line("SPC1").add(constraintSet->bestId()).add(
-                                spc->getDOFSForNode(nodePosition)).add(nodeId);
+                DOFS blocked;
+                for (const DOF dof : spc->getDOFSForNode(nodePosition)) {
+                    const double imposed = spc->getDoubleForDOF(dof);
+                    if (is_zero(imposed)) {
+                        blocked += dof;
+                    } else {
+                        out << Line("SPC").add(constraintSet->bestId()).add(nodeId).add(DOFS(dof)).add(imposed);
+                    }
+                }
+                if (blocked != DOFS::NO_DOFS) {
+                    out << Line("SPC1").add(constraintSet->bestId()).add(blocked).add(nodeId);
+                }
             }
             spc->markAsWritten();
         }
-- 
2.43.0


From b5025a918dfe6c457774cab13de64fd052ce162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 019/153] fix: RBE3 of Nastran output used a node id as a node
 position

---
 Nastran/NastranWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index f3d52ac..141353a 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -487,9 +487,9 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             Line rbe3("RBE3");
             rbe3.add(rbe3Constraint->bestId());
             rbe3.add();
-            const int masterPosition = model.mesh.findNodeId(rbe3Constraint->getMaster());
-            rbe3.add(model.mesh.findNodeId(masterPosition));
-            rbe3.add(rbe3Constraint->getDOFSForNode(masterPosition));
+            const int masterId = model.mesh.findNodeId(rbe3Constraint->getMaster());
+            rbe3.add(masterId);
+            rbe3.add(rbe3Constraint->getDOFSForNode(rbe3Constraint->getMaster()));
             for (const auto slavePosition : rbe3Constraint->getSlaves()) {
                 rbe3.add(rbe3Constraint->getCoefForNode(slavePosition));
                 rbe3.add(rbe3Constraint->getDOFSForNode(slavePosition));
-- 
2.43.0


From 7c8e1f3a8d898313809f446c737c4e5cbc33c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 020/153] fix: PBUSH cards were written with an additional
 field

---
 Nastran/NastranWriter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 141353a..4b1aa72 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -909,7 +909,6 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
         }
         Line pbush("PBUSH");
         pbush.add(segment->bestId());
-        pbush.add(0); // CID
         pbush.add("K");
         for (const DOF dof: DOFS::ALL_DOFS) {
             pbush.add(segment->findStiffness(dof, dof));
-- 
2.43.0


From 6506f3ccb5e6e90562e61a935b7c3422e6a775ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 021/153] fix: Nastran output wrote local node coordinates as
 if they were global

---
 Nastran/NastranWriter.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 4b1aa72..55ea11f 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -371,11 +371,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 void NastranWriter::writeNodes(const Model& model, ofstream& out) const
 		{
 	for (Node node : model.mesh.nodes) {
-	    if (node.positionCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
-	        cerr << "Warning in GRID "<<node.id<<" CP not supported and dismissed."<<endl;
         if (node.displacementCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
             cerr << "Warning in GRID "<<node.id<<" CD not supported and dismissed."<<endl;
-		out << Line("GRID").add(node.id).add().add(node.lx).add(node.ly).add(node.lz);
+		out << Line("GRID").add(node.id).add().add(node.x).add(node.y).add(node.z);
 	}
 }
 
-- 
2.43.0


From 026e6d3bccc107e130f3b56094e64fdf35ba326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 022/153] fix: CONM1 cards were written without their diagonal
 and last row

---
 Nastran/NastranWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 55ea11f..9edfdeb 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -867,9 +867,9 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             conm1.add(discretePoint->bestId());
             conm1.add(model.mesh.findNodeId(nodePosition));
             conm1.add(0); // CID
-            for (dof_int row = 0; row < 5; row++) {
+            for (dof_int row = 0; row < 6; row++) {
                 const DOF rowdof = DOF::findByPosition(row);
-                for (dof_int col = 0; col < row; col++) {
+                for (dof_int col = 0; col <= row; col++) {
                     const DOF coldof = DOF::findByPosition(col);
                     conm1.add(discretePoint->findMass(rowdof, coldof));
                 }
-- 
2.43.0


From 441f10767ad1ee4bcdd4007252718bc4594a2975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 023/153] fix: FORCE1 loads were removed from the model as
 ineffective

---
 Abstract/Loading.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 580e093..b2f9ea8 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -375,7 +375,7 @@ void NodalForceTwoNodes::scale(const double factor) {
 }
 
 bool NodalForceTwoNodes::ineffective() const {
-	return is_zero(magnitude) or force.iszero();
+	return is_zero(magnitude);
 }
 
 NodalForceFourNodes::NodalForceFourNodes(Model& model, const std::shared_ptr<LoadSet> loadset, const int node1_id,
-- 
2.43.0


From bff61bde6a7fd16e532f57441252a299ae2828d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 024/153] fix: a LOAD combination also scaled the line loads of
 the original set

---
 Abstract/Loading.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index b2f9ea8..b395967 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -694,7 +694,17 @@ unique_ptr<Loading> ForceLine::clone() const {
 }
 
 void ForceLine::scale(const double factor) {
-	force->scale(factor);
+	const auto& functionTable = dynamic_pointer_cast<FunctionTable>(force);
+	if (functionTable == nullptr) {
+		force->scale(factor);
+		return;
+	}
+	// A loading and its clones share the same function: only ours should be scaled
+	const auto& scaledTable = make_shared<FunctionTable>(*functionTable);
+	scaledTable->resetId();
+	scaledTable->scale(factor);
+	model.add(scaledTable);
+	force = scaledTable;
 }
 
 bool ForceLine::ineffective() const {
-- 
2.43.0


From 0081cf727c4af34595f566aa1dc9e84f276e96bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 025/153] fix: combined imposed displacements were scaled once
 per component

---
 Abstract/Loading.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index b395967..3c6a898 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -271,10 +271,7 @@ double ImposedDisplacement::getDoubleForDOF(const DOF& dof) const {
 }
 
 void ImposedDisplacement::scale(const double factor) {
-    for(DOF dof : DOFS::ALL_DOFS) {
-        if (not is_equal(displacements[dof.position], Globals::UNAVAILABLE_DOUBLE))
-            displacements *= factor;
-    }
+    displacements *= factor;
 }
 
 NodalForce::NodalForce(Model& model, const std::shared_ptr<LoadSet> loadset, const VectorialValue& force,
-- 
2.43.0


From 31090353e0d280291cc75e71e945f711b8a3a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 026/153] fix: RFORCE gives revolutions per unit time, scaled
 by its vector

---
 Nastran/NastranParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index f7c1158..9ff3dbe 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3234,7 +3234,9 @@ void NastranParser::parseRFORCE(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("MB not supported. Default (0) assumed.", tok, model);
     }
     const auto& loadset = model.getOrCreateLoadSet(sid, LoadSet::Type::LOAD);
-    const auto& rotation = make_shared<RotationNode>(model, loadset, a, g, r1, r2, r3);
+    // A is a number of revolutions per unit time, and the vector R also scales the velocity
+    const double speed = 2 * M_PI * a * VectorialValue(r1, r2, r3).norm();
+    const auto& rotation = make_shared<RotationNode>(model, loadset, speed, g, r1, r2, r3);
 
     rotation->setInputContext(tok.getInputContext());
     model.add(rotation);
-- 
2.43.0


From 16fdfffcf5d7d9b77da975274c7dbe4542f218d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 027/153] fix: the vector of PLOAD4 only gives the direction of
 the load

---
 Nastran/NastranParser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 9ff3dbe..2013bbd 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2925,6 +2925,14 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
     bool has_direction = not (is_equal(n1, 0.0) and is_equal(n2, 0.0) and is_equal(n3, 0.0)
                               and cid == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
+    const VectorialValue direction(n1, n2, n3);
+    if (not direction.iszero()) {
+        // N1, N2, N3 define the direction of the load but not its magnitude
+        const auto& unitDirection = direction.normalized();
+        n1 = unitDirection.x();
+        n2 = unitDirection.y();
+        n3 = unitDirection.z();
+    }
     if (not has_direction and g1 == Globals::UNAVAILABLE_INT) {
         const auto& normalPressionFace = make_shared<NormalPressionFace>(model, loadSet, p1);
         for(int cellId = eid1; cellId <= eid2; cellId++) {
-- 
2.43.0


From a5a87c88950f8d44803579043922f1d095988a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 028/153] fix: gravities of one load set are summed in
 Code_Aster output

---
 Aster/AsterWriter.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index ee03f05..1d170a3 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1951,16 +1951,21 @@ void AsterWriter::writeLMPC( const ConstraintSet& cset) {
 void AsterWriter::writeGravity(const LoadSet& loadSet) {
 	const auto& gravities = loadSet.getLoadingsByType(Loading::Type::GRAVITY);
 	if (not gravities.empty()) {
-		comm_file_ofs << "                      PESANTEUR=(" << endl;
+		// Only one occurrence of PESANTEUR in a load: accelerations are summed
+		VectorialValue acceleration(0, 0, 0);
 		for (const auto& loading : gravities) {
 			const auto& gravity = static_pointer_cast<Gravity>(loading);
-			comm_file_ofs << "                                 _F(GRAVITE=" << gravity->getAccelerationVector().norm()
-					<< "," << endl;
-			VectorialValue direction = gravity->getAccelerationVector().normalized();
-			comm_file_ofs << "                                    DIRECTION=(" << direction.x() << ","
-					<< direction.y() << "," << direction.z() << "),)," << endl;
-            gravity->markAsWritten();
+			acceleration = acceleration + gravity->getAccelerationVector();
+			gravity->markAsWritten();
 		}
+		if (acceleration.iszero())
+			return;
+		comm_file_ofs << "                      PESANTEUR=(" << endl;
+		comm_file_ofs << "                                 _F(GRAVITE=" << acceleration.norm()
+				<< "," << endl;
+		VectorialValue direction = acceleration.normalized();
+		comm_file_ofs << "                                    DIRECTION=(" << direction.x() << ","
+				<< direction.y() << "," << direction.z() << "),)," << endl;
 		comm_file_ofs << "                                 )," << endl;
 	}
 }
-- 
2.43.0


From 44807c1da353994e241e588d54da59b112ca41c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 029/153] fix: pressures of several loads on the same cells
 were not summed in Code_Aster output

---
 Aster/AsterWriter.cpp | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 1d170a3..1365970 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2037,13 +2037,41 @@ void AsterWriter::writeNodalForce( const LoadSet& loadSet) {
 	}
 }
 
+// Code_Aster only keeps the last pressure assigned to a cell: when several loadings share some cells,
+// returns the total pressure of each cell (and nothing when there is no overlap)
+template<class PressureLoading> static map<pos_t, double> sumOverlappingIntensities(
+		const set<shared_ptr<Loading>, ptrLess<Loading>>& loadings) {
+	map<pos_t, double> intensityByPosition;
+	size_t assignments = 0;
+	for (const auto& loading : loadings) {
+		const auto& pressure = static_pointer_cast<PressureLoading>(loading);
+		for (const auto cellPosition : pressure->getCellPositionsIncludingGroups()) {
+			intensityByPosition[cellPosition] += pressure->intensity;
+			assignments++;
+		}
+	}
+	if (assignments == intensityByPosition.size()) {
+		intensityByPosition.clear();
+	}
+	return intensityByPosition;
+}
+
 void AsterWriter::writePression(const LoadSet& loadSet) {
 	const auto& pressions = loadSet.getLoadingsByType(
 			Loading::Type::NORMAL_PRESSION_FACE);
 	if (not pressions.empty()) {
 		comm_file_ofs << "           PRES_REP=(" << endl;
+		const auto& overlaps = sumOverlappingIntensities<NormalPressionFace>(pressions);
+		for (const auto& pressureByCell : overlaps) {
+			comm_file_ofs << "                         _F(PRES= " << -pressureByCell.second << ",MAILLE=('"
+					<< Cell::MedName(pressureByCell.first) << "',),)," << endl;
+		}
 		for (const auto& pressionFace : pressions) {
 			const auto& normalPressionFace = static_pointer_cast<NormalPressionFace>(pressionFace);
+			if (not overlaps.empty()) {
+				pressionFace->markAsWritten();
+				continue;
+			}
 			//  U4.44.01 $6.6 PRES_REP "La pression est positive suivant le sens contraire de la normale à l’élément."
 			comm_file_ofs << "                         _F(PRES= " << -normalPressionFace->intensity << ",";
 			writeCellContainer(static_pointer_cast<CellContainer>(normalPressionFace));
@@ -2058,8 +2086,17 @@ void AsterWriter::writeForceCoque(const LoadSet& loadSet) {
 	const auto& pressionFaces = loadSet.getLoadingsByType(Loading::Type::NORMAL_PRESSION_SHELL);
 	if (not pressionFaces.empty()) {
 		comm_file_ofs << "           FORCE_COQUE=(" << endl;
+		const auto& overlaps = sumOverlappingIntensities<NormalPressionShell>(pressionFaces);
+		for (const auto& pressureByCell : overlaps) {
+			comm_file_ofs << "                        _F(PRES=" << -pressureByCell.second << ",MAILLE=('"
+					<< Cell::MedName(pressureByCell.first) << "',),)," << endl;
+		}
 		for (const auto& pressionFace : pressionFaces) {
 			const auto& normalPressionFace = static_pointer_cast<NormalPressionShell>(pressionFace);
+			if (not overlaps.empty()) {
+				pressionFace->markAsWritten();
+				continue;
+			}
 			// U4.44.01 §7.3 FORCE_COQUE PRES
 			// "La pression appliquée est positive suivant le sens contraire de la normale à l’élément
 			// (définie par l’orientation de chaque maille)
-- 
2.43.0


From d8fd34eef2fb724280ff912571e904479e667a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 030/153] fix: only the first gravity of a load case was
 written in SYSTUS output

---
 Systus/SystusWriter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 8d317b0..868a516 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1201,7 +1201,11 @@ void SystusWriter::fillLoadingsVectors(const SystusModel& systusModel, const int
                     vec.push_back(acceleration.z()); normvec=max(normvec, abs(acceleration.z()));
                     if (!is_zero(normvec)){
                         if (loadingVectorIdByLocalLoading[idLoadCase]!=0){
-                            handleWritingWarning("GRAVITY already defined for this loadcase. Dismissing load "+ to_string(gravity->bestId()) );
+                            // Only one acceleration by load case: they are summed
+                            vector<double>& previous = vectors[loadingVectorIdByLocalLoading[idLoadCase]];
+                            for (size_t component = 6; component < vec.size(); component++) {
+                                previous[component] += vec[component];
+                            }
                         }else{
                             vectors[vectorId]=vec;
                             loadingVectorIdByLocalLoading[idLoadCase]= vectorId;
-- 
2.43.0


From cc5ff8441c2bdbe69b2b553cd1158d7154f23adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 031/153] fix: RFORCE without grid point turned about an
 undefined point

---
 Nastran/NastranParser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 2013bbd..7453a8d 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3244,7 +3244,12 @@ void NastranParser::parseRFORCE(NastranTokenizer& tok, Model& model) {
     const auto& loadset = model.getOrCreateLoadSet(sid, LoadSet::Type::LOAD);
     // A is a number of revolutions per unit time, and the vector R also scales the velocity
     const double speed = 2 * M_PI * a * VectorialValue(r1, r2, r3).norm();
-    const auto& rotation = make_shared<RotationNode>(model, loadset, speed, g, r1, r2, r3);
+    shared_ptr<Rotation> rotation;
+    if (g == 0) { // the axis goes through the origin of the basic coordinate system
+        rotation = make_shared<RotationCenter>(model, loadset, speed, 0.0, 0.0, 0.0, r1, r2, r3);
+    } else {
+        rotation = make_shared<RotationNode>(model, loadset, speed, g, r1, r2, r3);
+    }
 
     rotation->setInputContext(tok.getInputContext());
     model.add(rotation);
-- 
2.43.0


From 444cfd307c5db7ff088767842d618782a7f5489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 032/153] fix: PLOAD1 distances of scale LE were taken as X
 coordinates

---
 Abstract/Model.cpp        | 6 ++++--
 Abstract/Value.h          | 3 ++-
 Aster/AsterModel.cpp      | 1 +
 Nastran/NastranParser.cpp | 2 +-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index c563d48..4350748 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2033,7 +2033,8 @@ void Model::changeParametricForceLineToAbsolute() {
         const auto& functionTable = dynamic_pointer_cast<FunctionTable>(forceLine->force);
         if (functionTable == nullptr)
             throw logic_error("Cannot convert to absolute this kind of Function");
-        if (functionTable->getParaX() != Function::ParaName::ABSC)
+        const bool byLength = functionTable->getParaX() == Function::ParaName::LENGTH;
+        if (functionTable->getParaX() != Function::ParaName::ABSC and not byLength)
             continue;
         const auto& absoluteFunction = make_shared<FunctionTable>(*this, functionTable->parameter, functionTable->value, functionTable->left, functionTable->right, functionTable->getOriginalId());
         absoluteFunction->setParaX(Function::ParaName::PARAX);
@@ -2041,8 +2042,9 @@ void Model::changeParametricForceLineToAbsolute() {
 
         if (cell.nodePositions.size() != 2)
             throw logic_error("Conversion of cell without two nodeids per ForceLine not yet implemented (but should be doable)");
+        const double cellLength = VectorialValue(node2.x - node1.x, node2.y - node1.y, node2.z - node1.z).norm();
         for (auto it = functionTable->getBeginValuesXY(); it != functionTable->getEndValuesXY(); it++) {
-            double absc = it->first;
+            double absc = byLength ? it->first / cellLength : it->first;
             double val = it->second;
             absoluteFunction->setXY(node1.x * (1-absc) + node2.x * absc, val);
         }
diff --git a/Abstract/Value.h b/Abstract/Value.h
index 45a3adc..cf00ff6 100644
--- a/Abstract/Value.h
+++ b/Abstract/Value.h
@@ -277,7 +277,8 @@ public:
         INST,
         AMOR,
         PARAX,
-        ABSC
+        ABSC, // fraction of the length of a cell
+        LENGTH // distance along a cell
     };
     enum class Interpolation {
         LINEAR,
diff --git a/Aster/AsterModel.cpp b/Aster/AsterModel.cpp
index 7f3f581..77be4a7 100644
--- a/Aster/AsterModel.cpp
+++ b/Aster/AsterModel.cpp
@@ -40,6 +40,7 @@ const map<Function::ParaName, string> AsterModel::NomParaByParaName = {
         { Function::ParaName::STRAIN, "EPSI" },
         { Function::ParaName::PARAX, "X" },
         { Function::ParaName::ABSC, "ABSC" },
+        { Function::ParaName::LENGTH, "ABSC" },
 };
 
 const map<FunctionTable::Interpolation, string> AsterModel::InterpolationByInterpolation = {
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 7453a8d..6d9e547 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2810,7 +2810,7 @@ void NastranParser::parsePLOAD1(NastranTokenizer& tok, Model& model) {
 
     if (scale == "LE") {
         /* If SCALE = LE, the total load applied to the bar is P1(X2 - X1) in the yb direction. */
-        force->setParaX(FunctionTable::ParaName::PARAX);
+        force->setParaX(FunctionTable::ParaName::LENGTH);
         effx1 = x1;
         effx2 = x2;
         effp1 = p1;
-- 
2.43.0


From 6c7a1ab31cc82c98687718eafd73f40a5e5b89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 033/153] fix: constant loads were written in AFFE_CHAR_MECA_F
 together with line loads

---
 Abstract/Loading.cpp  |  9 +++++++++
 Abstract/Loading.h    |  1 +
 Aster/AsterWriter.cpp | 43 +++++++++++++++++++++++++++----------------
 Aster/AsterWriter.h   |  4 ++--
 4 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 3c6a898..47a29db 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -114,6 +114,15 @@ bool LoadSet::validate() const {
 	return true;
 }
 
+bool LoadSet::hasConstants() const {
+	for (const auto& loading : getLoadings()) {
+		if (not loading->hasFunctions()) {
+			return true;
+		}
+	}
+	return false;
+}
+
 bool LoadSet::hasFunctions() const {
     for (const auto& loading : getLoadings()) {
 		if (loading->hasFunctions()) {
diff --git a/Abstract/Loading.h b/Abstract/Loading.h
index 365bbb4..657e7de 100644
--- a/Abstract/Loading.h
+++ b/Abstract/Loading.h
@@ -105,6 +105,7 @@ public:
 	bool validate() const override;
 	std::unique_ptr<LoadSet> clone() const;
 	bool hasFunctions() const;
+	bool hasConstants() const;
 	//bool operator<(const LoadSet &rhs) const;
 };
 
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 1365970..2752f36 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1504,25 +1504,28 @@ void AsterWriter::writeAffeCharMeca() {
 		}
 		for(bool withFunctions : {false, true} ) {
             string asterName;
+		    // AFFE_CHAR_MECA_F only accepts functions, the other loadings of the same set need an AFFE_CHAR_MECA
 		    if (withFunctions and loadSet.hasFunctions()) {
                 asterName = "CHMEF" + to_string(loadSet.getId());
                 comm_file_ofs << asterName << "=AFFE_CHAR_MECA_F(MODELE=MODMECA," << endl;
-		    } else if (not withFunctions and not loadSet.hasFunctions()) {
+		    } else if (not withFunctions and loadSet.hasConstants()) {
 		        asterName = "CHMEC" + to_string(loadSet.getId());
                 comm_file_ofs << asterName << "=AFFE_CHAR_MECA(MODELE=MODMECA," << endl;
             } else {
                 continue;
             }
             comm_file_ofs << "                 VERI_NORM='NON'," << endl; // Workaround for PREPOST4_97 see test pload4-ctetra-multi
-            asternameByLoadSet[loadSet] = asterName;
-            writeSPCD( loadSet);
-            writePression(loadSet);
-            writeForceCoque(loadSet);
-            writeNodalForce( loadSet);
-            writeForceSurface(loadSet);
-            writeForceLine(loadSet);
-            writeGravity(loadSet);
-            writeRotation(loadSet);
+            asternamesByLoadSet[loadSet].push_back(asterName);
+            writeForceLine(loadSet, withFunctions);
+            if (not withFunctions) {
+                writeSPCD( loadSet);
+                writePression(loadSet);
+                writeForceCoque(loadSet);
+                writeNodalForce( loadSet);
+                writeForceSurface(loadSet);
+                writeGravity(loadSet);
+                writeRotation(loadSet);
+            }
             comm_file_ofs << "                      );" << endl << endl;
 		}
 		loadSet.markAsWritten();
@@ -2109,13 +2112,15 @@ void AsterWriter::writeForceCoque(const LoadSet& loadSet) {
 	}
 }
 
-void AsterWriter::writeForceLine(const LoadSet& loadset) {
+void AsterWriter::writeForceLine(const LoadSet& loadset, bool withFunctions) {
 	const auto& forcesLine = loadset.getLoadingsByType(Loading::Type::FORCE_LINE);
 	vector<shared_ptr<ForceLine>> forcesOnPoutres;
 	vector<shared_ptr<ForceLine>> forcesOnGeometry;
 
 	for (const auto& loadingForceLine : forcesLine) {
 		const auto& forceLine = static_pointer_cast<ForceLine>(loadingForceLine);
+		if (forceLine->hasFunctions() != withFunctions)
+			continue;
 		if (forceLine->appliedToGeometry()) {
 			forcesOnGeometry.push_back(forceLine);
 		} else {
@@ -2497,7 +2502,9 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 		comm_file_ofs << "                    CARA_ELEM=CAEL," << endl;
 		comm_file_ofs << "                    EXCIT=(" << endl;
 		for (const auto& loadSet : linearMecaStat->getLoadSets()) {
-			comm_file_ofs << "                           _F(CHARGE=" << asternameByLoadSet[loadSet] << ")," << endl;
+			for (const auto& asterName : asternamesByLoadSet[loadSet]) {
+				comm_file_ofs << "                           _F(CHARGE=" << asterName << ")," << endl;
+			}
 		}
 		for (const auto& constraintSet : linearMecaStat->getConstraintSets()) {
 			//GC: dirty fix for #801, a deeper analysis must be done
@@ -2542,13 +2549,17 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 		comm_file_ofs << "                    EXCIT=(" << endl;
 		if (nonLinAnalysis->previousAnalysis != nullptr) {
 			for (const auto& loadSet : nonLinAnalysis->previousAnalysis->getLoadSets()) {
-				comm_file_ofs << "                           _F(CHARGE=" << asternameByLoadSet[loadSet]
-						<< ",FONC_MULT=IRAMP" << nonLinAnalysis->getId() << ")," << "# Original id:" << loadSet->getOriginalId() << endl;
+				for (const auto& asterName : asternamesByLoadSet[loadSet]) {
+					comm_file_ofs << "                           _F(CHARGE=" << asterName
+							<< ",FONC_MULT=IRAMP" << nonLinAnalysis->getId() << ")," << "# Original id:" << loadSet->getOriginalId() << endl;
+				}
 			}
 		}
 		for (const auto& loadSet : nonLinAnalysis->getLoadSets()) {
-			comm_file_ofs << "                           _F(CHARGE=" << asternameByLoadSet[loadSet]
-					<< ",FONC_MULT=RAMP" << nonLinAnalysis->getId() << ")," << "# Original id:" << loadSet->getOriginalId() << endl;
+			for (const auto& asterName : asternamesByLoadSet[loadSet]) {
+				comm_file_ofs << "                           _F(CHARGE=" << asterName
+						<< ",FONC_MULT=RAMP" << nonLinAnalysis->getId() << ")," << "# Original id:" << loadSet->getOriginalId() << endl;
+			}
 		}
 		for (const auto& constraintSet : nonLinAnalysis->getConstraintSets()) {
 			if (constraintSet->hasContacts()) {
diff --git a/Aster/AsterWriter.h b/Aster/AsterWriter.h
index b1231ff..270fa0f 100644
--- a/Aster/AsterWriter.h
+++ b/Aster/AsterWriter.h
@@ -30,7 +30,7 @@ class AsterWriter final : public Writer {
 	std::string mail_name, sigm_noeu, sigm_elno, sief_elga;
 	bool calc_sigm = false;
 	std::map<Reference<NamedValue>, std::string> asternameByValue;
-	std::map<Reference<LoadSet>, std::string> asternameByLoadSet;
+	std::map<Reference<LoadSet>, std::vector<std::string>> asternamesByLoadSet;
 	std::map<Reference<ConstraintSet>, std::string> asternameByConstraintSet;
 	std::list<std::string> destroyableConcepts;
 //	std::set<int> singleGroupCellPositions;
@@ -59,7 +59,7 @@ class AsterWriter final : public Writer {
 	void writeNodalForce(const LoadSet&);
 	void writePression(const LoadSet&);
 	void writeForceCoque(const LoadSet&);
-	void writeForceLine(const LoadSet&);
+	void writeForceLine(const LoadSet&, bool withFunctions);
 	void writeForceSurface(const LoadSet&);
 	void writeNodeContainer(const std::shared_ptr<NodeContainer>& nodeContainer);
 	void writeCellContainer(const std::shared_ptr<CellContainer>& cellContainer);
-- 
2.43.0


From 530fadadc9e115b03fa6367ef598715962f77cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 034/153] fix: line loads on a part of a bar, or on a bar
 directed against X, had invalid functions

---
 Abstract/Model.cpp        | 10 +++++++++-
 Nastran/NastranParser.cpp |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 4350748..5f9d735 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2043,10 +2043,18 @@ void Model::changeParametricForceLineToAbsolute() {
         if (cell.nodePositions.size() != 2)
             throw logic_error("Conversion of cell without two nodeids per ForceLine not yet implemented (but should be doable)");
         const double cellLength = VectorialValue(node2.x - node1.x, node2.y - node1.y, node2.z - node1.z).norm();
+        vector<pair<double, double>> valuesByX;
         for (auto it = functionTable->getBeginValuesXY(); it != functionTable->getEndValuesXY(); it++) {
             double absc = byLength ? it->first / cellLength : it->first;
             double val = it->second;
-            absoluteFunction->setXY(node1.x * (1-absc) + node2.x * absc, val);
+            valuesByX.push_back({node1.x * (1-absc) + node2.x * absc, val});
+        }
+        // the cell can be directed against X, abscissas of a function are increasing
+        if (node2.x < node1.x) {
+            reverse(valuesByX.begin(), valuesByX.end());
+        }
+        for (const auto& xy : valuesByX) {
+            absoluteFunction->setXY(xy.first, xy.second);
         }
         this->add(absoluteFunction);
         forceLine->force = absoluteFunction;
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 6d9e547..e35148e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2783,7 +2783,8 @@ void NastranParser::parsePLOAD1(NastranTokenizer& tok, Model& model) {
     int eid = tok.nextInt();
     string type = tok.nextString();
     string scale = tok.nextString();
-    const auto& force = make_shared<FunctionTable>(model, FunctionTable::Interpolation::LINEAR, FunctionTable::Interpolation::LINEAR, FunctionTable::Interpolation::NONE, FunctionTable::Interpolation::NONE);
+    // constant on both sides, because the load can start after the first end of the bar and stop before the second one
+    const auto& force = make_shared<FunctionTable>(model, FunctionTable::Interpolation::LINEAR, FunctionTable::Interpolation::LINEAR, FunctionTable::Interpolation::CONSTANT, FunctionTable::Interpolation::CONSTANT);
     DOF dof = DOF::DX;
     double x1 = tok.nextDouble(true, 0.0);
     double p1 = tok.nextDouble(true, 0.0);
-- 
2.43.0


From 017537c62720bff24428ed52cc7f9520267a6a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:04 +0000
Subject: [PATCH 035/153] fix: only the last line load of a bar was kept in
 Code_Aster output

---
 Aster/AsterWriter.cpp | 62 ++++++++++++++++++++++++++++++++++++++++++-
 Aster/AsterWriter.h   |  2 ++
 2 files changed, 63 insertions(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 2752f36..bd2d1bf 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1502,6 +1502,7 @@ void AsterWriter::writeAffeCharMeca() {
 		if (loadSet.isOriginal()) {
 			comm_file_ofs << "# LoadSet " << loadSet << endl;
 		}
+		writeForceLineSums(loadSet);
 		for(bool withFunctions : {false, true} ) {
             string asterName;
 		    // AFFE_CHAR_MECA_F only accepts functions, the other loadings of the same set need an AFFE_CHAR_MECA
@@ -2112,6 +2113,59 @@ void AsterWriter::writeForceCoque(const LoadSet& loadSet) {
 	}
 }
 
+// Value of a function at some abscissa, and zero outside of its range
+static double valueAt(const FunctionTable& function, const double x) {
+	for (auto it = function.getBeginValuesXY(); it != function.getEndValuesXY(); it++) {
+		const auto next = it + 1;
+		if (next != function.getEndValuesXY() and x >= it->first and x <= next->first) {
+			return it->second + (next->second - it->second) * (x - it->first) / (next->first - it->first);
+		}
+	}
+	return 0.0;
+}
+
+// Code_Aster only keeps the last function assigned to a component of the force on a cell: functions of several
+// loadings are replaced by their sum, which is assigned by the first one
+void AsterWriter::writeForceLineSums(const LoadSet& loadset) {
+	map<pair<pos_t, DOF>, vector<shared_ptr<ForceLine>>> forcesByCellAndDof;
+	for (const auto& loading : loadset.getLoadingsByType(Loading::Type::FORCE_LINE)) {
+		const auto& forceLine = static_pointer_cast<ForceLine>(loading);
+		const auto& cellPositions = forceLine->getCellPositionsIncludingGroups();
+		if (cellPositions.size() == 1 and dynamic_pointer_cast<FunctionTable>(forceLine->force) != nullptr) {
+			forcesByCellAndDof[{*cellPositions.begin(), forceLine->dof}].push_back(forceLine);
+		}
+	}
+	asternameByForceLine.clear();
+	for (const auto& entry : forcesByCellAndDof) {
+		if (entry.second.size() < 2)
+			continue;
+		vector<double> abscissas;
+		for (const auto& forceLine : entry.second) {
+			const auto& function = static_pointer_cast<FunctionTable>(forceLine->force);
+			for (auto it = function->getBeginValuesXY(); it != function->getEndValuesXY(); it++) {
+				abscissas.push_back(it->first);
+			}
+			asternameByForceLine[forceLine] = "";
+		}
+		sort(abscissas.begin(), abscissas.end());
+		const auto& first = static_pointer_cast<FunctionTable>(entry.second.front()->force);
+		const auto& total = make_shared<FunctionTable>(asterModel->model, first->parameter, first->value, first->left, first->right);
+		total->setParaX(first->getParaX());
+		total->setParaY(first->getParaY());
+		const double tolerance = 1e-9 * max(abs(abscissas.front()), abs(abscissas.back()));
+		for (size_t i = 0; i < abscissas.size(); i++) {
+			if (i > 0 and abscissas[i] - abscissas[i - 1] <= tolerance)
+				continue;
+			double sum = 0.0;
+			for (const auto& forceLine : entry.second) {
+				sum += valueAt(*static_pointer_cast<FunctionTable>(forceLine->force), abscissas[i]);
+			}
+			total->setXY(abscissas[i], sum);
+		}
+		asternameByForceLine[entry.second.front()] = writeValue(total);
+	}
+}
+
 void AsterWriter::writeForceLine(const LoadSet& loadset, bool withFunctions) {
 	const auto& forcesLine = loadset.getLoadingsByType(Loading::Type::FORCE_LINE);
 	vector<shared_ptr<ForceLine>> forcesOnPoutres;
@@ -2121,6 +2175,11 @@ void AsterWriter::writeForceLine(const LoadSet& loadset, bool withFunctions) {
 		const auto& forceLine = static_pointer_cast<ForceLine>(loadingForceLine);
 		if (forceLine->hasFunctions() != withFunctions)
 			continue;
+		const auto& summed = asternameByForceLine.find(forceLine);
+		if (summed != asternameByForceLine.end() and summed->second.empty()) {
+			forceLine->markAsWritten();
+			continue;
+		}
 		if (forceLine->appliedToGeometry()) {
 			forcesOnGeometry.push_back(forceLine);
 		} else {
@@ -2153,7 +2212,8 @@ void AsterWriter::writeForceLine(const LoadSet& loadset, bool withFunctions) {
             default:
                 handleWritingError("DOF not yet handled");
             }
-            comm_file_ofs << "=" << asternameByValue[forceLine->force] << ",";
+            const auto& summed = asternameByForceLine.find(forceLine);
+            comm_file_ofs << "=" << (summed != asternameByForceLine.end() ? summed->second : asternameByValue[forceLine->force]) << ",";
             writeCellContainer(static_pointer_cast<CellContainer>(forceLine));
             comm_file_ofs << "          )," << endl;
             forceLine->markAsWritten();
diff --git a/Aster/AsterWriter.h b/Aster/AsterWriter.h
index 270fa0f..604c35e 100644
--- a/Aster/AsterWriter.h
+++ b/Aster/AsterWriter.h
@@ -31,6 +31,7 @@ class AsterWriter final : public Writer {
 	bool calc_sigm = false;
 	std::map<Reference<NamedValue>, std::string> asternameByValue;
 	std::map<Reference<LoadSet>, std::vector<std::string>> asternamesByLoadSet;
+	std::map<std::shared_ptr<ForceLine>, std::string> asternameByForceLine;
 	std::map<Reference<ConstraintSet>, std::string> asternameByConstraintSet;
 	std::list<std::string> destroyableConcepts;
 //	std::set<int> singleGroupCellPositions;
@@ -59,6 +60,7 @@ class AsterWriter final : public Writer {
 	void writeNodalForce(const LoadSet&);
 	void writePression(const LoadSet&);
 	void writeForceCoque(const LoadSet&);
+	void writeForceLineSums(const LoadSet&);
 	void writeForceLine(const LoadSet&, bool withFunctions);
 	void writeForceSurface(const LoadSet&);
 	void writeNodeContainer(const std::shared_ptr<NodeContainer>& nodeContainer);
-- 
2.43.0


From 487c8f3c1d85bbc4c4ab786099a47ef9c0ef1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 036/153] fix: default vectors (moment of forces...) were not
 initialized

---
 Abstract/Value.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Abstract/Value.cpp b/Abstract/Value.cpp
index 145bcd3..294ddb8 100644
--- a/Abstract/Value.cpp
+++ b/Abstract/Value.cpp
@@ -177,12 +177,12 @@ VectorialValue::VectorialValue(ublas::vector<double>& value) :
 }
 
 VectorialValue::VectorialValue(initializer_list<double> init_list):
-				Value(Value::Type::VECTOR), value(ublas::vector<double>(3)) {
+				Value(Value::Type::VECTOR), value(ublas::vector<double>(3, 0.0)) {
 	copy_n(init_list.begin(),min(static_cast<int>(init_list.size()),3), value.begin());
 }
 
 VectorialValue::VectorialValue() :
-		Value(Value::Type::VECTOR), value(ublas::vector<double>(3)) {
+		Value(Value::Type::VECTOR), value(ublas::vector<double>(3, 0.0)) {
 }
 
 double VectorialValue::norm() const {
-- 
2.43.0


From 350015bae33721f45f5b64748d87fe7339532403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 037/153] fix: surface forces on shells or several on one face
 were lost in Code_Aster output

---
 Aster/AsterWriter.cpp | 89 +++++++++++++++++++++++++++++--------------
 Aster/AsterWriter.h   |  2 +
 2 files changed, 62 insertions(+), 29 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index bd2d1bf..e55b202 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2042,9 +2042,9 @@ void AsterWriter::writeNodalForce( const LoadSet& loadSet) {
 }
 
 // Code_Aster only keeps the last pressure assigned to a cell: when several loadings share some cells,
-// returns the total pressure of each cell (and nothing when there is no overlap)
+// returns the total pressure of each cell (and nothing when there is no overlap, except when always is set)
 template<class PressureLoading> static map<pos_t, double> sumOverlappingIntensities(
-		const set<shared_ptr<Loading>, ptrLess<Loading>>& loadings) {
+		const set<shared_ptr<Loading>, ptrLess<Loading>>& loadings, bool always = false) {
 	map<pos_t, double> intensityByPosition;
 	size_t assignments = 0;
 	for (const auto& loading : loadings) {
@@ -2054,7 +2054,7 @@ template<class PressureLoading> static map<pos_t, double> sumOverlappingIntensit
 			assignments++;
 		}
 	}
-	if (assignments == intensityByPosition.size()) {
+	if (assignments == intensityByPosition.size() and not always) {
 		intensityByPosition.clear();
 	}
 	return intensityByPosition;
@@ -2063,9 +2063,18 @@ template<class PressureLoading> static map<pos_t, double> sumOverlappingIntensit
 void AsterWriter::writePression(const LoadSet& loadSet) {
 	const auto& pressions = loadSet.getLoadingsByType(
 			Loading::Type::NORMAL_PRESSION_FACE);
-	if (not pressions.empty()) {
+	// FORCE_COQUE can not hold a pressure and a force on the same cell
+	const bool withShells = not loadSet.getLoadingsByType(Loading::Type::NORMAL_PRESSION_SHELL).empty()
+			and not sumSurfaceForces(loadSet, true).empty();
+	if (not pressions.empty() or withShells) {
 		comm_file_ofs << "           PRES_REP=(" << endl;
-		const auto& overlaps = sumOverlappingIntensities<NormalPressionFace>(pressions);
+		auto overlaps = sumOverlappingIntensities<NormalPressionFace>(pressions, withShells);
+		if (withShells) {
+			for (const auto& pressureByCell : sumOverlappingIntensities<NormalPressionShell>(
+					loadSet.getLoadingsByType(Loading::Type::NORMAL_PRESSION_SHELL), true)) {
+				overlaps[pressureByCell.first] += pressureByCell.second;
+			}
+		}
 		for (const auto& pressureByCell : overlaps) {
 			comm_file_ofs << "                         _F(PRES= " << -pressureByCell.second << ",MAILLE=('"
 					<< Cell::MedName(pressureByCell.first) << "',),)," << endl;
@@ -2086,10 +2095,52 @@ void AsterWriter::writePression(const LoadSet& loadSet) {
 	}
 }
 
+// Total surface force of each cell (Code_Aster only keeps the last one), for shells or for the other cells
+map<pos_t, VectorialValue> AsterWriter::sumSurfaceForces(const LoadSet& loadSet, bool onShells) const {
+	set<pos_t> shellCells;
+	for (const auto& elementSet : asterModel->model.elementSets) {
+		if (elementSet->type == ElementSet::Type::SHELL or elementSet->type == ElementSet::Type::COMPOSITE) {
+			const auto& cellPositions = static_pointer_cast<CellElementSet>(elementSet)->getCellPositionsIncludingGroups();
+			shellCells.insert(cellPositions.begin(), cellPositions.end());
+		}
+	}
+	map<pos_t, VectorialValue> forceByPosition;
+	for (const auto& loading : loadSet.getLoadingsByType(Loading::Type::FORCE_SURFACE)) {
+		const auto& forceSurface = static_pointer_cast<ForceSurface>(loading);
+		for (const auto cellPosition : forceSurface->getCellPositionsIncludingGroups()) {
+			if ((shellCells.find(cellPosition) != shellCells.end()) == onShells) {
+				const VectorialValue& previous = forceByPosition[cellPosition];
+				const VectorialValue& force = forceSurface->getForce();
+				forceByPosition[cellPosition] = VectorialValue(previous.x() + force.x(), previous.y() + force.y(),
+						previous.z() + force.z());
+			}
+		}
+		forceSurface->markAsWritten();
+	}
+	return forceByPosition;
+}
+
+void AsterWriter::writeSurfaceForces(const map<pos_t, VectorialValue>& forceByPosition) {
+	for (const auto& entry : forceByPosition) {
+		const VectorialValue& force = entry.second;
+		comm_file_ofs << "                       _F(MAILLE=('" << Cell::MedName(entry.first) << "',),";
+		comm_file_ofs << "FX=" << force.x() << ",FY=" << force.y() << ",FZ=" << force.z() << ",)," << endl;
+	}
+}
+
 void AsterWriter::writeForceCoque(const LoadSet& loadSet) {
 	const auto& pressionFaces = loadSet.getLoadingsByType(Loading::Type::NORMAL_PRESSION_SHELL);
-	if (not pressionFaces.empty()) {
+	const auto& shellForces = sumSurfaceForces(loadSet, true);
+	if (not pressionFaces.empty() or not shellForces.empty()) {
 		comm_file_ofs << "           FORCE_COQUE=(" << endl;
+		writeSurfaceForces(shellForces);
+		if (not shellForces.empty()) {
+			for (const auto& pressionFace : pressionFaces) {
+				pressionFace->markAsWritten(); // by writePression
+			}
+			comm_file_ofs << "            )," << endl;
+			return;
+		}
 		const auto& overlaps = sumOverlappingIntensities<NormalPressionShell>(pressionFaces);
 		for (const auto& pressureByCell : overlaps) {
 			comm_file_ofs << "                        _F(PRES=" << -pressureByCell.second << ",MAILLE=('"
@@ -2228,30 +2279,10 @@ void AsterWriter::writeForceLine(const LoadSet& loadset, bool withFunctions) {
 
 }
 void AsterWriter::writeForceSurface(const LoadSet& loadSet) {
-	const auto& forceSurfaces = loadSet.getLoadingsByType(Loading::Type::FORCE_SURFACE);
-	if (not forceSurfaces.empty()) {
+	const auto& forces = sumSurfaceForces(loadSet, false);
+	if (not forces.empty()) {
 		comm_file_ofs << "           FORCE_FACE=(" << endl;
-		for (const auto& loading : forceSurfaces) {
-			const auto& forceSurface = static_pointer_cast<ForceSurface>(loading);
-			VectorialValue force = forceSurface->getForce();
-			VectorialValue moment = forceSurface->getMoment();
-			comm_file_ofs << "                       _F(";
-			writeCellContainer(static_pointer_cast<CellContainer>(forceSurface));
-			if (!is_equal(force.x(), 0))
-				comm_file_ofs << "FX=" << force.x() << ",";
-			if (!is_equal(force.y(),0))
-				comm_file_ofs << "FY=" << force.y() << ",";
-			if (!is_equal(force.z(),0))
-				comm_file_ofs << "FZ=" << force.z() << ",";
-			if (!is_equal(moment.x(), 0))
-				comm_file_ofs << "MX=" << moment.x() << ",";
-			if (!is_equal(moment.y(), 0))
-				comm_file_ofs << "MY=" << moment.y() << ",";
-			if (!is_equal(moment.z(), 0))
-				comm_file_ofs << "MZ=" << moment.z() << ",";
-			comm_file_ofs << ")," << endl;
-			forceSurface->markAsWritten();
-		}
+		writeSurfaceForces(forces);
 		comm_file_ofs << "            )," << endl;
 	}
 }
diff --git a/Aster/AsterWriter.h b/Aster/AsterWriter.h
index 604c35e..eb63ba8 100644
--- a/Aster/AsterWriter.h
+++ b/Aster/AsterWriter.h
@@ -62,6 +62,8 @@ class AsterWriter final : public Writer {
 	void writeForceCoque(const LoadSet&);
 	void writeForceLineSums(const LoadSet&);
 	void writeForceLine(const LoadSet&, bool withFunctions);
+	std::map<pos_t, VectorialValue> sumSurfaceForces(const LoadSet&, bool onShells) const;
+	void writeSurfaceForces(const std::map<pos_t, VectorialValue>&);
 	void writeForceSurface(const LoadSet&);
 	void writeNodeContainer(const std::shared_ptr<NodeContainer>& nodeContainer);
 	void writeCellContainer(const std::shared_ptr<CellContainer>& cellContainer);
-- 
2.43.0


From 51bfe8bf6ae1e9e7684189935aa27c3f416e7d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 038/153] fix: defaults of a ply come from the last ply that
 gives them

---
 Nastran/NastranParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index e35148e..2d62a2e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2600,10 +2600,12 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
     double theta1 = tok.nextDouble(true, 0.0);
     tok.skip(1); // SOUT1
     composite->addLayer(Reference<Material>(Material::Type::MATERIAL,mid1), t1, theta1);
+    int midn = mid1;
+    double tn = t1;
     while(not tok.isNextEmpty(4) and not tok.isEmptyUntilNextKeyword()) {
-        int midn = tok.nextInt(true, mid1);
+        midn = tok.nextInt(true, midn); // the default is the last defined one
         composite->assignMaterial(Reference<Material>(Material::Type::MATERIAL,midn));
-        double tn = tok.nextDouble(true, t1);
+        tn = tok.nextDouble(true, tn);
         double thetan = tok.nextDouble(true, 0.0);
         tok.skip(1); // SOUTn
         composite->addLayer(Reference<Material>(Material::Type::MATERIAL,midn), tn, thetan);
-- 
2.43.0


From 22d99d970d058ac239b9e5fbbdcc1a0d68fc7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 039/153] fix: non-structural mass gave each element twice to
 its property, and none to the mass

---
 Abstract/Model.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 5f9d735..0b99dde 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -913,7 +913,11 @@ void Model::emulateAdditionalMass() {
             if (cellElementSet == nullptr)
                 throw logic_error("additional mass but elementset is not a cellcontainer?");
 
-            // assign new material
+            // the copy only has mass, on cells of its own
+            cellElementSet->clear();
+            for (const auto& material : elementSet->getMaterials()) {
+                cellElementSet->unassignMaterial(material);
+            }
             const auto& newMaterial = make_shared<Material>(*this);
             newMaterial->addNature(make_shared<ElasticNature>(*this, 0, 0, 0, rho));
             materials.add(newMaterial);
@@ -923,13 +927,12 @@ void Model::emulateAdditionalMass() {
             oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet << " additional rho:" << rho;
             const auto& newCellGroup = mesh.createCellGroup(
                     "VAM_" + to_string(newElementSets.size()), Group::NO_ORIGINAL_ID, oss.str());
-            const auto& cellContainer = dynamic_pointer_cast<CellContainer>(elementSet);
-            cellContainer->add(*newCellGroup);
+            cellElementSet->add(*newCellGroup);
             newElementSets.push_back(newElementSet);
             for (const auto cellPosition : elementSet->cellPositions()) {
                 const Cell& cell = mesh.findCell(cellPosition);
                 const auto newCellPosition = mesh.addCell(Cell::AUTO_ID, cell.type, cell.nodeIds, cell.isvirtual,
-                        cell.cspos, cell.elementId);
+                        cell.cspos, cell.elementId, cell.offset);
                 newCellGroup->addCellPosition(newCellPosition);
             }
         }
-- 
2.43.0


From c58cd4f501530de09f7269d31e380b4759d65f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 040/153] fix: only the last imposed displacement of a node
 superseded its constraints

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 0b99dde..ffa0f47 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1473,7 +1473,7 @@ void Model::removeConstrainedImposed() {
             for (const auto& load : loads) {
                 const auto& impo = static_pointer_cast<ImposedDisplacement>(load);
                 for (const auto nodePosition : impo->nodePositions()) {
-                    imposedDofsByNodePosition[nodePosition] = impo->getDOFSForNode(nodePosition);
+                    imposedDofsByNodePosition[nodePosition] += impo->getDOFSForNode(nodePosition);
                 }
             }
         }
-- 
2.43.0


From b80ff41cb1a9a85e86623680b7ba4cae1a7fe4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 041/153] fix: degrees of freedom added for the constraints of
 one analysis were free in the others

---
 Abstract/Model.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index ffa0f47..4f07b9a 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -661,8 +661,8 @@ void Model::generateDiscrets() {
         DOFS addedDOFS;
         if (not missingDOFS.empty()) {
             if (missingDOFS.containsAnyOf(DOFS::ROTATIONS)) {
-                //extra dofs added by the DISCRET. They need to be blocked.
-                addedDOFS = DOFS::ALL_DOFS - node.dofs - missingDOFS;
+                //extra dofs added by the DISCRET. They need to be blocked by the analyses that do not use them.
+                addedDOFS = DOFS::ALL_DOFS - node.dofs;
                 if (virtualDiscretTRGroup == nullptr) {
                     const auto& virtualDiscretTR = make_shared<DiscretePoint>(*this, MatrixType::DIAGONAL);
                     for (DOF dof: DOFS::ALL_DOFS) {
@@ -684,7 +684,7 @@ void Model::generateDiscrets() {
                         true);
                 virtualDiscretTRGroup->addCellPosition(cellPosition);
             } else {
-                addedDOFS = DOFS::TRANSLATIONS - node.dofs - missingDOFS;
+                addedDOFS = DOFS::TRANSLATIONS - node.dofs;
                 if (virtualDiscretTGroup == nullptr) {
                     const auto& virtualDiscretT = make_shared<DiscretePoint>(*this, MatrixType::DIAGONAL);
                     for (DOF dof: DOFS::TRANSLATIONS) {
@@ -710,7 +710,7 @@ void Model::generateDiscrets() {
             shared_ptr<ConstraintSet> spcSet = nullptr;
 
             const DOFS& requiredDOFS = analysis->findBoundaryDOFS(node.position);
-            if (!node.dofs.containsAll(requiredDOFS)) {
+            if (!addedDOFS.empty() and (!node.dofs.empty() or !requiredDOFS.empty())) {
                 const DOFS& extraDOFS = addedDOFS - requiredDOFS - node.dofs;
 
                 if (extraDOFS != DOFS::NO_DOFS) {
-- 
2.43.0


From ae49f8f8113c552c11876bac72ff52205c6a642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:22 +0000
Subject: [PATCH 042/153] fix: RBAR whose independent components are those of
 its second point

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 2d62a2e..298619d 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3135,8 +3135,8 @@ void NastranParser::parseRBAR(NastranTokenizer& tok, Model& model) {
         model.add(qrc);
         model.addConstraintIntoConstraintSet(*qrc, *model.commonConstraintSet);
     } else if (cnb != 0) {
-        const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cnb), ga, original_id);
-        qrc->addSlave(gb);
+        const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cnb), gb, original_id);
+        qrc->addSlave(ga);
         qrc->setInputContext(tok.getInputContext());
         model.add(qrc);
         model.addConstraintIntoConstraintSet(*qrc, *model.commonConstraintSet);
-- 
2.43.0


From 2c78531d090f9cc4070d57c3ffe6ebaf1e16fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:22 +0000
Subject: [PATCH 043/153] fix: rigid bars between points without rotations also
 tied their relative motion across the bar

---
 Nastran/NastranParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 298619d..d6e5da8 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3130,12 +3130,14 @@ void NastranParser::parseRBAR(NastranTokenizer& tok, Model& model) {
     }
     if (cna != 0) {
         const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cna), ga, original_id);
+        qrc->addRotations = true;
         qrc->addSlave(gb);
         qrc->setInputContext(tok.getInputContext());
         model.add(qrc);
         model.addConstraintIntoConstraintSet(*qrc, *model.commonConstraintSet);
     } else if (cnb != 0) {
         const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cnb), gb, original_id);
+        qrc->addRotations = true;
         qrc->addSlave(ga);
         qrc->setInputContext(tok.getInputContext());
         model.add(qrc);
-- 
2.43.0


From 35a01f9c3702adc1b911823727f152563520fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:22 +0000
Subject: [PATCH 044/153] fix: RBAR1 could not be translated: its first point
 leads its second one

---
 Nastran/NastranParser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index d6e5da8..e9a9623 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3158,10 +3158,11 @@ void NastranParser::parseRBAR1(NastranTokenizer& tok, Model& model) {
     int original_id=tok.nextInt();
     int ga = tok.nextInt();
     int gb = tok.nextInt();
-    int cna = tok.nextInt(true, 0);
+    // dependent components of gb: all of them by default
+    int cb = tok.nextInt(true, 123456);
 
-    const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cna), MasterSlaveConstraint::UNAVAILABLE_MASTER, original_id);
-    qrc->addSlave(ga);
+    const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cb), ga, original_id);
+    qrc->addRotations = true;
     qrc->addSlave(gb);
     qrc->setInputContext(tok.getInputContext());
     model.add(qrc);
-- 
2.43.0


From 83e388dfa326bcfc63d17bb2d0803241fcf8bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:22 +0000
Subject: [PATCH 045/153] fix: components of MPC cards are those of the
 displacement system of their points

---
 Abstract/Constraint.cpp | 17 +++++++++++++++++
 Abstract/Constraint.h   |  1 +
 Abstract/Model.cpp      |  3 +++
 3 files changed, 21 insertions(+)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index e46fc35..476e94a 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -582,6 +582,23 @@ void LinearMultiplePointConstraint::removeNodePosition(const pos_t nodePosition)
     dofCoefsByNodePosition.erase(nodePosition);
 }
 
+void LinearMultiplePointConstraint::emulateLocalDisplacementConstraint() {
+    for (auto& it : dofCoefsByNodePosition) {
+        const Node& node = model.mesh.findNode(it.first);
+        if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+            const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+            coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
+            DOFCoefs local = it.second;
+            const VectorialValue& translations = coordSystem->vectorToGlobal(
+                    VectorialValue(local[0], local[1], local[2]));
+            const VectorialValue& rotations = coordSystem->vectorToGlobal(
+                    VectorialValue(local[3], local[4], local[5]));
+            it.second = DOFCoefs(translations.x(), translations.y(), translations.z(),
+                    rotations.x(), rotations.y(), rotations.z());
+        }
+    }
+}
+
 bool LinearMultiplePointConstraint::ineffective() const  {
     return dofCoefsByNodePosition.empty();
 }
diff --git a/Abstract/Constraint.h b/Abstract/Constraint.h
index 910cb12..7315734 100644
--- a/Abstract/Constraint.h
+++ b/Abstract/Constraint.h
@@ -222,6 +222,7 @@ public:
     DOFS getDOFSForNode(const pos_t nodePosition) const override;
     void removeNodePosition(const pos_t nodePosition) override;
     bool ineffective() const override;
+    void emulateLocalDisplacementConstraint();
 };
 
 class Contact: public Constraint {
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 4f07b9a..5ebc808 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -890,6 +890,9 @@ void Model::generateSkin() {
 
 void Model::emulateLocalDisplacementConstraint() {
 
+    for (const auto& constraint : constraints.filter(Constraint::Type::LMPC)) {
+        static_pointer_cast<LinearMultiplePointConstraint>(constraint)->emulateLocalDisplacementConstraint();
+    }
     for (const auto& constraint : constraints.filter(Constraint::Type::SPC)) {
         const auto& spc = static_pointer_cast<SinglePointConstraint>(   constraint);
         spc->emulateLocalDisplacementConstraint();
-- 
2.43.0


From 9d7806dca4594c113ce57164d035e2ad73213225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 046/153] fix: SYSTUS rigid bodies that share points turned
 independently of each other

---
 Systus/SystusWriter.cpp | 47 +++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 868a516..f3471c4 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -647,6 +647,39 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
     Mesh& mesh = systusModel.model.mesh;
     rotationNodeIdByTranslationNodeId.clear();
 
+    // Points that rigid bars link together rotate together
+    map<int, int> bodyByNodeId;
+    const auto bodyOf = [&bodyByNodeId](int nodeId) {
+        auto it = bodyByNodeId.find(nodeId);
+        while (it != bodyByNodeId.end() and it->second != nodeId) {
+            nodeId = it->second;
+            it = bodyByNodeId.find(nodeId);
+        }
+        return nodeId;
+    };
+    for (const auto& elementSet : systusModel.model.elementSets.filter(ElementSet::Type::RBAR)) {
+        for (const pos_t cellPosition : elementSet->cellPositions()) {
+            const auto& nodeIds = mesh.findCell(cellPosition).nodeIds;
+            const int masterBody = bodyOf(nodeIds[0]);
+            for (const int nodeId : nodeIds) {
+                bodyByNodeId[bodyOf(nodeId)] = masterBody;
+            }
+        }
+    }
+    // Points of one body, or several elements on one point, share one rotation node
+    map<int, int> rotationNodeIdByBody;
+    const auto rotationNodeIdFor = [&](const Node& node) {
+        const int body = bodyOf(node.id);
+        const auto it = rotationNodeIdByBody.find(body);
+        if (it != rotationNodeIdByBody.end()) {
+            return it->second;
+        }
+        const auto rotationPosition = mesh.addNode(Node::AUTO_ID, node.lx, node.ly, node.lz, node.positionCS, node.displacementCS);
+        const int rotationId = mesh.findNodeId(rotationPosition);
+        rotationNodeIdByBody[body] = rotationId;
+        return rotationId;
+    };
+
     for (const auto& elementSet : systusModel.model.elementSets.filter(ElementSet::Type::RBAR)) {
         const auto& rbars = static_pointer_cast<Rbar>(elementSet);
 
@@ -680,9 +713,8 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
         int master_rot_id = 0;
 
         if (systusOption == SystusOption::CONTINUOUS){
-            const auto master_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, master.displacementCS);
-            master_rot_id = mesh.findNodeId(master_rot_position);
-            rotationNodeIdByTranslationNodeId[master.id]=master_rot_id;
+            master_rot_id = rotationNodeIdFor(master);
+            rotationNodeIdByTranslationNodeId[masterId]=master_rot_id;
         }
 
         map<pos_t, pos_t> updatedPositionByOldPosition;
@@ -697,8 +729,10 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
                 handleWritingError("Error: the first node of ElementSet::RBAR cells must be the master node.");
             }
 
-            if (systusOption == SystusOption::CONTINUOUS)
+            if (systusOption == SystusOption::CONTINUOUS) {
                 nodes.push_back(master_rot_id);
+                rotationNodeIdByTranslationNodeId[cell.nodeIds[1]]=master_rot_id;
+            }
 
             // With a Lagrangian formulation, we add a Lagrange node.
             // Lagrange node must NOT have an orientation, as they inherit it from the slave node.
@@ -774,9 +808,8 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
         int master_rot_id=0;
         int master_lagr_rot_id=0;
         if (systusOption == SystusOption::CONTINUOUS){
-            const auto master_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, master.displacementCS);
-            master_rot_id = mesh.findNodeId(master_rot_position);
-            rotationNodeIdByTranslationNodeId[master.id]=master_rot_id;
+            master_rot_id = rotationNodeIdFor(master);
+            rotationNodeIdByTranslationNodeId[masterId]=master_rot_id;
             const auto master_lagr_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
             master_lagr_rot_id = mesh.findNodeId(master_lagr_rot_position);
         }
-- 
2.43.0


From 5f9419c66a97645a7df2fefc5977601fcb7de70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 047/153] fix: SYSTUS averages with several weights were
 written as several averages

---
 Systus/SystusWriter.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index f3471c4..557db51 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -773,6 +773,9 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
         rbars->markAsWritten();
     }
 
+    // The weights of one average share its Lagrange nodes
+    map<pair<int, DOFS>, pair<int, int>> lagrangeNodeIdsByAverage;
+
     for (const auto& elementSet : systusModel.model.elementSets.filter(ElementSet::Type::RBE3)) {
 
         /*
@@ -801,8 +804,15 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
 
         // Creating a Lagrange node
         // Lagrange node must NOT have an orientation, as they inherit it from the slave node.
-        const auto master_lagr_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-        const int master_lagr_id = mesh.findNodeId(master_lagr_position);
+        const auto addLagrangeNode = [&mesh, &master]() {
+            const auto lagrangePosition = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
+            return mesh.findNodeId(lagrangePosition);
+        };
+        auto& lagrangeNodeIds = lagrangeNodeIdsByAverage[{masterId, rbe3->mdofs}];
+        if (lagrangeNodeIds.first == 0) {
+            lagrangeNodeIds.first = addLagrangeNode();
+        }
+        const int master_lagr_id = lagrangeNodeIds.first;
 
         // Creating rotation nodes if needed
         int master_rot_id=0;
@@ -810,8 +820,10 @@ void SystusWriter::generateRBEs(SystusModel& systusModel,
         if (systusOption == SystusOption::CONTINUOUS){
             master_rot_id = rotationNodeIdFor(master);
             rotationNodeIdByTranslationNodeId[masterId]=master_rot_id;
-            const auto master_lagr_rot_position = mesh.addNode(Node::AUTO_ID, master.lx, master.ly, master.lz, master.positionCS, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-            master_lagr_rot_id = mesh.findNodeId(master_lagr_rot_position);
+            if (lagrangeNodeIds.second == 0) {
+                lagrangeNodeIds.second = addLagrangeNode();
+            }
+            master_lagr_rot_id = lagrangeNodeIds.second;
         }
 
         // Updating the cells
-- 
2.43.0


From 6854632953a13e95c978921a0d344e0b57c67a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:42 +0000
Subject: [PATCH 048/153] fix: scalar springs acted on all components of their
 points in Aster

---
 Abstract/ConfigurationParameters.cpp |   1 +
 Abstract/Element.cpp                 | 146 +++++++--------------------
 Abstract/Element.h                   |   3 +-
 3 files changed, 40 insertions(+), 110 deletions(-)

diff --git a/Abstract/ConfigurationParameters.cpp b/Abstract/ConfigurationParameters.cpp
index 83ab3c1..b6e1ff3 100644
--- a/Abstract/ConfigurationParameters.cpp
+++ b/Abstract/ConfigurationParameters.cpp
@@ -62,6 +62,7 @@ ModelConfiguration ConfigurationParameters::getModelConfiguration() const {
         configuration.changeParametricForceLineToAbsolute = true;
         configuration.alwaysUseGroupsForCells = true;
         configuration.splitElementsByCellOffsets = true;
+        configuration.splitElementsByDOFS = true;
         configuration.alwaysUseOrthotropicMaterialsInComposites = true;
     } else if (this->outputSolver.getSolverName() == SolverName::SYSTUS) {
         configuration.createSkin = true;
diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index a54f047..943721f 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -1301,127 +1301,55 @@ size_t ScalarSpring::getNbDOFSSpring() const{
 }
 
 bool ScalarSpring::hasTranslations() const {
-	for (const DOF dof1 : DOFS::TRANSLATIONS) {
-		for (const DOF dof2 : DOFS::TRANSLATIONS) {
-            auto codeIter = this->cellpositionByDOFS.find({dof1, dof2});
-            if (codeIter != this->cellpositionByDOFS.end()) {
-				return true;
-            }
-		}
-	}
-	return false;
+    for (const auto& kv : this->cellpositionByDOFS) {
+        if (kv.first.first.isTranslation or kv.first.second.isTranslation) {
+            return true;
+        }
+    }
+    return false;
 }
 
 bool ScalarSpring::hasRotations() const {
-	for (const DOF dof1 : DOFS::ROTATIONS) {
-		for (const DOF dof2 : DOFS::ROTATIONS) {
-            auto codeIter = this->cellpositionByDOFS.find({dof1, dof2});
-            if (codeIter != this->cellpositionByDOFS.end()) {
-				return true;
-            }
-		}
-	}
-	return false;
+    for (const auto& kv : this->cellpositionByDOFS) {
+        if (kv.first.first.isRotation or kv.first.second.isRotation) {
+            return true;
+        }
+    }
+    return false;
 }
 
-vector<double> ScalarSpring::asStiffnessVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
-
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, stiffness);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                DOF colcode = DOF::findByPosition(coldof);
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        DOF rowcode = DOF::findByPosition(rowdof);
-                        auto codeIter = this->cellpositionByDOFS.find({rowcode, colcode});
-                        if (codeIter != this->cellpositionByDOFS.end() and colindex == 1 and row_element_index <= 2) {
-                            result.push_back(stiffness);
-                        } else {
-                            result.push_back(0.0);
-                        }
-                    }
-                }
-            }
-        }
-    } else {
-        throw logic_error("not yet implemented");
+vector<double> ScalarSpring::asUpperTriangularColumnsVector(double value, bool addRotationsIfNotPresent) const {
+    if (this->cellpositionByDOFS.size() > 1) {
+        throw logic_error("Scalar springs between different components do not share one matrix.");
     }
-	return result;
+    const int ncomp = (addRotationsIfNotPresent or hasRotations()) ? 6 : 3;
+    vector<double> result(static_cast<size_t>(ncomp * (2 * ncomp + 1)), 0.0);
+    if (this->cellpositionByDOFS.empty() or is_equal(value, Globals::UNAVAILABLE_DOUBLE)) {
+        return result;
+    }
+    const auto addValue = [&result](int row, int col, double coef) {
+        const int last = max(row, col);
+        result[static_cast<size_t>(last * (last + 1) / 2 + min(row, col))] += coef;
+    };
+    const auto& dofs = this->cellpositionByDOFS.begin()->first;
+    const int first = dofs.first.position;
+    const int second = ncomp + dofs.second.position;
+    addValue(first, first, value);
+    addValue(second, second, value);
+    addValue(first, second, -value);
+    return result;
+}
+
+vector<double> ScalarSpring::asStiffnessVector(bool addRotationsIfNotPresent) const {
+    return asUpperTriangularColumnsVector(this->stiffness, addRotationsIfNotPresent);
 }
 
 vector<double> ScalarSpring::asDampingVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, damping);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                DOF colcode = DOF::findByPosition(coldof);
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        DOF rowcode = DOF::findByPosition(rowdof);
-                        auto codeIter = this->cellpositionByDOFS.find({rowcode, colcode});
-                        if (codeIter != this->cellpositionByDOFS.end() and colindex == 1 and row_element_index <= 2) {
-                            result.push_back(damping);
-                        } else {
-                            result.push_back(0.0);
-                        }
-                    }
-                }
-            }
-        }
-    } else {
-        throw logic_error("not yet implemented");
-    }
-	return result;
+    return asUpperTriangularColumnsVector(this->damping, addRotationsIfNotPresent);
 }
 
 vector<double> ScalarSpring::asMassVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
-
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, mass);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        result.push_back(mass);
-                    }
-                }
-            }
-        }
-    } else {
-        throw logic_error("not yet implemented");
-    }
-	return result;
+    return asUpperTriangularColumnsVector(this->mass, addRotationsIfNotPresent);
 }
 
 } /* namespace vega */
diff --git a/Abstract/Element.h b/Abstract/Element.h
index 0f286c5..afc0402 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -660,6 +660,7 @@ public:
  **/
 class ScalarSpring : public Discrete {
 private:
+    std::vector<double> asUpperTriangularColumnsVector(double value, bool addRotationsIfNotPresent) const;
     std::map<std::pair<DOF, DOF>, std::vector<pos_t>> cellpositionByDOFS;
     double stiffness = 0.0;
     double damping = 0.0;
@@ -679,7 +680,7 @@ public:
 	bool hasTranslations() const override;
 	bool hasRotations() const override;
 	bool isDiagonal() const override {
-	    return true;
+	    return false; // it only ties one component of its first point to one component of its second point
 	}
 	bool isSymmetric() const override {
 	    return true;
-- 
2.43.0


From 6e03da5715174c898baaa700f3e8b1a165036b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:04 +0000
Subject: [PATCH 049/153] fix: PBUSH cards could not end with blank stiffnesses

---
 Nastran/NastranParser.cpp | 61 ++++++++++++---------------------------
 1 file changed, 19 insertions(+), 42 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index e9a9623..6a8c2c3 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2433,54 +2433,31 @@ void NastranParser::parsePBUSH(NastranTokenizer& tok, Model& model) {
     double ea=1.0;
     double et=1.0;
 
+    const auto nextStiffness = [&]() {
+        if (tok.isEmptyUntilNextKeyword()) {
+            return 0.0;
+        }
+        if (tok.isNextDouble() or tok.isNextEmpty()) {
+            return tok.nextDouble(true, 0.0);
+        }
+        if (tok.nextString() != "RIGID") {
+            handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
+        }
+        return DBL_MAX;
+    };
+
     // Parsing the keyword: done this way to avoid warning message when the user
     // specified null B or null GE.
     while (!(tok.isEmptyUntilNextKeyword())){
         tok.skipToNotEmpty();
         string flag = tok.nextString();
         if (flag=="K") { // Stiffness values (Default 0.0)
-            if (tok.isNextDouble() or tok.isNextEmpty())
-                k1=tok.nextDouble(true, 0.0);
-            else
-                if (tok.nextString() == "RIGID")
-                    k1 = DBL_MAX;
-                else
-                    handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
-                k2=tok.nextDouble(true, 0.0);
-            else
-                if (tok.nextString() == "RIGID")
-                    k2 = DBL_MAX;
-                else
-                    handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
-                k3=tok.nextDouble(true, 0.0);
-            else
-                if (tok.nextString() == "RIGID")
-                    k3 = DBL_MAX;
-                else
-                    handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
-                k4=tok.nextDouble(true, 0.0);
-            else
-                if (tok.nextString() == "RIGID")
-                    k4 = DBL_MAX;
-                else
-                    handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
-                k5=tok.nextDouble(true, 0.0);
-            else
-                if (tok.nextString() == "RIGID")
-                    k5 = DBL_MAX;
-                else
-                    handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
-                k6=tok.nextDouble(true, 0.0);
-            else
-                if (tok.nextString() == "RIGID")
-                    k6 = DBL_MAX;
-                else
-                    handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
+            k1 = nextStiffness();
+            k2 = nextStiffness();
+            k3 = nextStiffness();
+            k4 = nextStiffness();
+            k5 = nextStiffness();
+            k6 = nextStiffness();
         } else if (flag=="B") { // Force-Per-velocity Damping (Default 0.0)
             b1=tok.nextDouble(true, 0.0);
             b2=tok.nextDouble(true, 0.0);
-- 
2.43.0


From a27f0cd5ac99c741a1c5ebc1847392313a5b7ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:04 +0000
Subject: [PATCH 050/153] fix: CONM1 terms that follow a blank field and the
 last row were ignored

---
 Nastran/NastranParser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 6a8c2c3..8049845 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1190,14 +1190,17 @@ void NastranParser::parseCONM1(NastranTokenizer& tok, Model& model) {
 
     const auto& nodalMassMatrix = make_shared<DiscretePoint>(model, MatrixType::SYMMETRIC, eid);
 
-    for (dof_int row = 0; row < 5; row++) {
+    for (dof_int row = 0; row < 6; row++) {
         const DOF rowdof = DOF::findByPosition(row);
         for (dof_int col = 0; col <= row; col++) {
             const DOF coldof = DOF::findByPosition(col);
-            if (!tok.isNextDouble()) {
+            if (tok.isEmptyUntilNextKeyword()) {
                 break;
             }
-            nodalMassMatrix->addMass(rowdof, coldof, tok.nextDouble(true, 0.0));
+            const double value = tok.nextDouble(true, 0.0);
+            if (not is_zero(value)) {
+                nodalMassMatrix->addMass(rowdof, coldof, value);
+            }
         }
     }
 
-- 
2.43.0


From 144a758045870388f9550a9e55138b1df42041ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:40 +0000
Subject: [PATCH 051/153] fix: springs and dampers connected to the ground were
 left free at their other end

---
 Nastran/NastranParser.h            |  3 ++-
 Nastran/NastranParser_geometry.cpp | 38 +++++++++++++++++-------------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 7d7e76e..5d3dcf6 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -265,7 +265,8 @@ private:
     /**
      * Parse the CDAMP keyword (page 1187 of MDN Nastran 2006 Quick Reference Guide.)
      */
-    void parseCDAMP1(NastranTokenizer& tok, Model& model);//in NastranParser_geometry.cpp
+    void parseCDAMP1(NastranTokenizer& tok, Model& model);
+    int addGroundNode(Model& model);//in NastranParser_geometry.cpp
 
     /**
      * Parse the CELAS1 keyword (page 1199 of MDN Nastran 2006 Quick Reference Guide.)
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index fa8884a..206eb83 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -287,25 +287,30 @@ void NastranParser::parseCBUSH(NastranTokenizer& tok, Model& model) {
 }
 
 
+int NastranParser::addGroundNode(Model& model) {
+    const auto nodePosition = model.mesh.addNode(Node::AUTO_ID, 0.0, 0.0, 0.0);
+    const int nodeId = model.mesh.findNodeId(nodePosition);
+    const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::ALL_DOFS, 0.0);
+    spc->addNodeId(nodeId);
+    model.add(spc);
+    model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
+    return nodeId;
+}
+
 void NastranParser::parseCDAMP1(NastranTokenizer& tok, Model& model) {
     // Defines a scalar mass element without reference to a property entry.
     int eid = tok.nextInt();
     int pid = tok.nextInt();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok,model);
-    int g2 = tok.nextInt();
+    int g2 = tok.nextInt(true);
     dof_int c2 = parseDOF(tok,model,true);
 
     // Creates cell
     // If G2 is undefined, it is considered a fictitious grounded point, and c2=c1
     if (g2 == Globals::UNAVAILABLE_INT or g2 == 0){
-        c2= c1;
-        const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::ALL_DOFS, 0.0);
-        //shared_ptr<NodeGroup> spcNodeGroup = model.mesh.findOrCreateNodeGroup("CELAS1_" + to_string(eid) + "_GND",NodeGroup::NO_ORIGINAL_ID,"CELAS1 GROUND");
-        const auto nodePosition = model.mesh.addNode(Node::AUTO_ID, 0.0, 0.0, 0.0);
-        g2 = model.mesh.findNodeId(nodePosition);
-        spc->addNodeId(g2);
-        model.add(spc);
+        c2 = c1;
+        g2 = addGroundNode(model);
     }
 
     const auto cellPosition= model.mesh.addCell(eid, CellType::SEG2, {g1, g2}, false, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, pid);
@@ -342,13 +347,8 @@ void NastranParser::parseCELAS1(NastranTokenizer& tok, Model& model) {
     // If G2 is undefined, it is considered a fictitious grounded point, and c2=c1
     CellType cellType =  CellType::SEG2;
     if (g2 == Globals::UNAVAILABLE_INT or g2 == 0){
-        c2= c1;
-        const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::ALL_DOFS, 0.0);
-        //shared_ptr<NodeGroup> spcNodeGroup = model.mesh.findOrCreateNodeGroup("CELAS1_" + to_string(eid) + "_GND",NodeGroup::NO_ORIGINAL_ID,"CELAS1 GROUND");
-        const auto nodePosition = model.mesh.addNode(Node::AUTO_ID, 0.0, 0.0, 0.0);
-        g2 = model.mesh.findNodeId(nodePosition);
-        spc->addNodeId(g2);
-        model.add(spc);
+        c2 = c1;
+        g2 = addGroundNode(model);
     }
     const auto cellPosition= model.mesh.addCell(eid, cellType, {g1, g2}, false, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, pid);
     const auto& cellGroup = getOrCreateCellGroup(pid, model, "CELAS1");
@@ -377,9 +377,13 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
     double k = tok.nextDouble();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok,model);
-    int g2 = tok.nextInt();
-    dof_int c2 = parseDOF(tok,model);
+    int g2 = tok.nextInt(true);
+    dof_int c2 = parseDOF(tok,model,true);
     double ge = tok.nextDouble(true, 0.0);
+    if (g2 == Globals::UNAVAILABLE_INT or g2 == 0) {
+        c2 = c1;
+        g2 = addGroundNode(model);
+    }
 
     // S is only used for post-treatment, and so discarded.
     double s = tok.nextDouble(true);
-- 
2.43.0


From 5eb4b1cb266b917ea8a8d723d42902244a6045ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:40 +0000
Subject: [PATCH 052/153] fix: CMASS2 masses had no diagonal terms and a
 positive coupling

---
 Nastran/NastranParser_geometry.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 206eb83..1ff1e1f 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -495,10 +495,14 @@ void NastranParser::parseCMASS2(NastranTokenizer& tok, Model& model) {
     double m = tok.nextDouble();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok, model); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
-    int g2 = tok.nextInt();
-    dof_int c2 = parseDOF(tok, model); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
-    const auto& matrix = make_shared<MassMatrix>(model, MatrixType::SYMMETRIC, eid);
-    matrix->addComponent(g1, DOF::findByPosition(c1), g2, DOF::findByPosition(c2), m);
+    int g2 = tok.nextInt(true);
+    dof_int c2 = parseDOF(tok, model, true); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
+    const auto& matrix = make_shared<MassMatrix>(model, MatrixType::SYMMETRIC);
+    matrix->addComponent(g1, DOF::findByPosition(c1), g1, DOF::findByPosition(c1), m);
+    if (g2 != Globals::UNAVAILABLE_INT and g2 != 0) {
+        matrix->addComponent(g2, DOF::findByPosition(c2), g2, DOF::findByPosition(c2), m);
+        matrix->addComponent(g1, DOF::findByPosition(c1), g2, DOF::findByPosition(c2), -m);
+    }
     model.add(matrix);
 }
 
-- 
2.43.0


From 546fc255cfc1dc78f7a6d157efd9cd57b46748db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:40 +0000
Subject: [PATCH 053/153] fix: springs without property clashed with the
 property of the same number

---
 Nastran/NastranParser_geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 1ff1e1f..369db90 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -399,7 +399,7 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
     springGroup->addCellPosition(cellPosition);
 
     // Create ElementSet
-    const auto& scalarSpring = make_shared<ScalarSpring>(model, eid, k ,ge);
+    const auto& scalarSpring = make_shared<ScalarSpring>(model, ScalarSpring::NO_ORIGINAL_ID, k, ge);
     scalarSpring->add(*springGroup);
     scalarSpring->addSpring(cellPosition, DOF::findByPosition(c1), DOF::findByPosition(c2));
     model.add(scalarSpring);
@@ -419,7 +419,7 @@ void NastranParser::parseCELAS4(NastranTokenizer& tok, Model& model) {
     springGroup->addCellPosition(cellPosition);
 
     // Create ElementSet
-    const auto& scalarSpring = make_shared<ScalarSpring>(model, eid, k);
+    const auto& scalarSpring = make_shared<ScalarSpring>(model, ScalarSpring::NO_ORIGINAL_ID, k);
     scalarSpring->add(*springGroup);
     scalarSpring->addSpring(cellPosition, DOF::DX, DOF::DX);
     model.add(scalarSpring);
-- 
2.43.0


From 307f6b27281a24b5ae41889cff7f1d8538e024df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:40 +0000
Subject: [PATCH 054/153] fix: the offset of point masses without inertia was
 lost in Aster

---
 Abstract/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 943721f..b294437 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -948,7 +948,8 @@ bool NodalMass::hasTranslations() const {
 }
 
 bool NodalMass::hasRotations() const {
-	return (not is_zero(ixx) or not is_zero(iyy) or not is_zero(izz) or not is_zero(ixy) or not is_zero(iyz) or not is_zero(ixz));
+	return (not is_zero(ixx) or not is_zero(iyy) or not is_zero(izz) or not is_zero(ixy) or not is_zero(iyz) or not is_zero(ixz)
+			or not is_zero(ex) or not is_zero(ey) or not is_zero(ez));
 }
 
 DOFS NodalMass::getDOFSForNode(const pos_t nodePosition) const {
-- 
2.43.0


From ba867eb09b24ebee57549f885e3abae135eaab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:40 +0000
Subject: [PATCH 055/153] fix: products of inertia of CONM2 cards were
 exchanged, and written with the wrong sign in Nastran

---
 Nastran/NastranParser.cpp | 2 +-
 Nastran/NastranWriter.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 8049845..55df2bb 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1236,7 +1236,7 @@ void NastranParser::parseCONM2(NastranTokenizer& tok, Model& model) {
     const double i32 = tok.nextDouble(true, 0.0);
     const double i33 = tok.nextDouble(true, 0.0);
 
-    const auto& nodalMass = make_shared<NodalMass>(model, mass, i11, i22, i33, -i21, -i31, -i32, x1, x2, x3, eid);
+    const auto& nodalMass = make_shared<NodalMass>(model, mass, i11, i22, i33, -i21, -i32, -i31, x1, x2, x3, eid);
 
     const pos_t cpos = ci == 0 ? CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID : model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, ci));
     const auto cellPosition = model.mesh.addCell(eid, CellType::POINT1, { g }, false, cpos);
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 9edfdeb..c43d079 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -891,10 +891,10 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             conm2.add(mass->ez);
             conm2.add();
             conm2.add(mass->ixx);
-            conm2.add(mass->ixy);
+            conm2.add(-mass->ixy);
             conm2.add(mass->iyy);
-            conm2.add(mass->ixz);
-            conm2.add(mass->iyz);
+            conm2.add(-mass->ixz);
+            conm2.add(-mass->iyz);
             conm2.add(mass->izz);
             out << conm2;
             elementSet->markAsWritten();
-- 
2.43.0


From 5bda7e266107ea261691d77edde8bcc367424079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:18 +0000
Subject: [PATCH 056/153] fix: dampers were written with a negative infinite
 stiffness in SYSTUS

---
 Systus/SystusWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 557db51..7e6e6aa 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -2213,7 +2213,9 @@ void SystusWriter::fillMaterial(const SystusModel& systusModel, const int idSubc
                 // If we have the same DOF, we can use a Spring element 1602.
                 // Else, we need to use a tabulated element 1902 Type 0
                 if (pairDOF.first == pairDOF.second){
-                    fillMaterialField(DOFtoSMF(pairDOF.first), ss->getStiffness(), systusMat);
+                    if (ss->hasStiffness()) {
+                        fillMaterialField(DOFtoSMF(pairDOF.first), ss->getStiffness(), systusMat);
+                    }
                     if (ss->hasDamping()){
                         handleWritingWarning(to_str(*elementSet)+" damping is not supported.","Material");
                     }
-- 
2.43.0


From 60bbb0b29be14ea6063d6940ce9ffd61574bc722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 057/153] fix: blank components of orientation vectors were
 taken for orientation points

---
 Nastran/NastranParser_geometry.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 369db90..555ca67 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -135,7 +135,11 @@ pos_t NastranParser::parseOrientation(int point1, int point2, NastranTokenizer&
         Model& model) {
 
     const auto& line = tok.currentDataLine();
-    bool alternateFormat = line.size() < 8 || line[6].empty() || line[7].empty();
+    const auto isBlank = [&line](size_t i) {
+        return line.size() <= i or line[i].empty();
+    };
+    // a point is an integer on its own; the components of a vector may be blank
+    const bool alternateFormat = isBlank(6) and isBlank(7) and tok.isNextInt();
     shared_ptr<OrientationCoordinateSystem> ocs;
     if (alternateFormat) {
         int g0 = tok.nextInt();
@@ -144,9 +148,9 @@ pos_t NastranParser::parseOrientation(int point1, int point2, NastranTokenizer&
         ocs = make_shared<OrientationCoordinateSystem>(model.mesh, point1, point2, g0);
     } else {
         double x1, x2, x3;
-        x1 = tok.nextDouble();
-        x2 = tok.nextDouble();
-        x3 = tok.nextDouble();
+        x1 = tok.nextDouble(true, 0.0);
+        x2 = tok.nextDouble(true, 0.0);
+        x3 = tok.nextDouble(true, 0.0);
         if (is_zero(x1) and is_zero(x2) and is_zero(x3)) {
             x2 = 1; // LD Hack, should find a better solution for a ill-defined segment orientation
         }
-- 
2.43.0


From d070f5ad9a748130e5c04725bb59598368eda506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 058/153] fix: direct matrices on one point were written as
 segments without second end in Aster

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 5ebc808..1b657ff 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1248,7 +1248,7 @@ void Model::replaceDirectMatrices()
                 const auto& matrixGroup = mesh.createCellGroup(
                         "MTN" + to_string(matrix_count), Group::NO_ORIGINAL_ID, oss.str());
                 discrete->add(*matrixGroup);
-                const auto cellPosition = mesh.addCell(Cell::AUTO_ID, CellType::SEG2, { nodeId }, true);
+                const auto cellPosition = mesh.addCell(Cell::AUTO_ID, CellType::POINT1, { nodeId }, true);
                 matrixGroup->addCellPosition(cellPosition);
                 if (discrete->hasRotations()) {
                     addedDofsByNode[nodePosition] = DOFS::ALL_DOFS;
-- 
2.43.0


From dff2304a869e93967ec34f795aa784103d7b247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 059/153] fix: couplings of direct matrices were divided by the
 number of segments in Aster

---
 Abstract/Model.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 1b657ff..a2c59c2 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1312,8 +1312,11 @@ void Model::replaceDirectMatrices()
                         shared_ptr<const DOFMatrix> submatrix = matrix->findSubmatrix(rowNodePosition2,
                                 colNodePosition2);
                         for (const auto& kv : submatrix->componentByDofs) {
-                            // We are disassembling the matrix, so we must divide the value by the segments
-                            double value = kv.second / static_cast<int>(matrix->findInPairs(pair.first).size());
+                            double value = kv.second;
+                            if (row_index == col_index) {
+                                // this block is shared between all the segments of the node
+                                value /= static_cast<int>(matrix->findInPairs(rowNodePosition2).size());
+                            }
                             const DOF& rowDof = kv.first.first;
                             const DOF& colDof = kv.first.second;
                             if (!is_equal(value, 0)) {
-- 
2.43.0


From fec341c5c67f88b31588ded95fa96c943f8dbb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:44 +0000
Subject: [PATCH 060/153] fix: direct matrices on points without element were
 blocked in Aster, and their rotations left free

---
 Abstract/Model.cpp | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index a2c59c2..4f35b14 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1183,7 +1183,7 @@ void Model::replaceDirectMatrices()
         }
         const auto& matrix = static_pointer_cast<MatrixElement>(elementSetM);
         for (const auto nodePosition : matrix->nodePositions()) {
-            requiredDofsByNode[nodePosition] = DOFS();
+            requiredDofsByNode.insert({nodePosition, DOFS()});
             const int nodeId = mesh.findNodeId(nodePosition);
             DOFS owned;
             for (const auto elementSetI : elementSets) {
@@ -1214,7 +1214,7 @@ void Model::replaceDirectMatrices()
                 // single node
                 const auto nodePosition = pair.first;
                 const int nodeId = mesh.findNodeId(nodePosition);
-                DOFS requiredDofs = requiredDofsByNode.find(nodePosition)->second;
+                DOFS& requiredDofs = requiredDofsByNode[nodePosition];
                 const auto& submatrix = matrix->findSubmatrix(nodePosition, nodePosition);
                 const auto& discrete = make_shared<DiscretePoint>(*this, submatrix->matrixType);
                 for (const auto& kv : submatrix->componentByDofs) {
@@ -1250,13 +1250,9 @@ void Model::replaceDirectMatrices()
                 discrete->add(*matrixGroup);
                 const auto cellPosition = mesh.addCell(Cell::AUTO_ID, CellType::POINT1, { nodeId }, true);
                 matrixGroup->addCellPosition(cellPosition);
-                if (discrete->hasRotations()) {
-                    addedDofsByNode[nodePosition] = DOFS::ALL_DOFS;
-                    mesh.allowDOFS(nodePosition, DOFS::ALL_DOFS);
-                } else {
-                    addedDofsByNode[nodePosition] = DOFS::TRANSLATIONS;
-                    mesh.allowDOFS(nodePosition, DOFS::TRANSLATIONS);
-                }
+                const DOFS& addedDofs = discrete->hasRotations() ? DOFS::ALL_DOFS : DOFS::TRANSLATIONS;
+                addedDofsByNode[nodePosition] += addedDofs;
+                mesh.allowDOFS(nodePosition, addedDofs);
                 if (this->configuration.logLevel >= LogLevel::DEBUG) {
                     cout << "Creating discrete : " << *discrete << " over node id : "
                             << to_string(nodeId) << endl;
@@ -1268,8 +1264,6 @@ void Model::replaceDirectMatrices()
                 const auto colNodePosition = pair.second;
                 const int rowNodeId = mesh.findNodeId(rowNodePosition);
                 const int colNodeId = mesh.findNodeId(colNodePosition);
-                DOFS requiredRowDofs = requiredDofsByNode.find(rowNodePosition)->second;
-                DOFS requiredColDofs = requiredDofsByNode.find(colNodePosition)->second;
 
                 const auto& discrete = make_shared<DiscreteSegment>(*this, matrix->matrixType);
                 ostringstream oss;
@@ -1284,17 +1278,6 @@ void Model::replaceDirectMatrices()
                     discrete->assignMaterial(getVirtualMaterial());
                 }
                 discrete->add(*matrixGroup);
-                if (discrete->hasRotations()) {
-                    addedDofsByNode[rowNodePosition] = DOFS::ALL_DOFS;
-                    mesh.allowDOFS(rowNodePosition, DOFS::ALL_DOFS);
-                    addedDofsByNode[colNodePosition] = DOFS::ALL_DOFS;
-                    mesh.allowDOFS(colNodePosition, DOFS::ALL_DOFS);
-                } else {
-                    addedDofsByNode[rowNodePosition] = DOFS::TRANSLATIONS;
-                    mesh.allowDOFS(rowNodePosition, DOFS::TRANSLATIONS);
-                    addedDofsByNode[colNodePosition] = DOFS::TRANSLATIONS;
-                    mesh.allowDOFS(colNodePosition, DOFS::TRANSLATIONS);
-                }
                 for (int row_index = 0; row_index < 2; ++row_index) {
                     for (int col_index = 0; col_index < 2; ++col_index) {
                         pos_t rowNodePosition2;
@@ -1336,12 +1319,17 @@ void Model::replaceDirectMatrices()
                                 default:
                                     throw logic_error("Not yet implemented");
                                 }
-                                requiredRowDofs += rowDof;
-                                requiredColDofs += colDof;
+                                requiredDofsByNode[rowNodePosition2] += rowDof;
+                                requiredDofsByNode[colNodePosition2] += colDof;
                             }
                         }
                     }
                 }
+                const DOFS& addedDofs = discrete->hasRotations() ? DOFS::ALL_DOFS : DOFS::TRANSLATIONS;
+                for (const auto nodePosition : {rowNodePosition, colNodePosition}) {
+                    addedDofsByNode[nodePosition] += addedDofs;
+                    mesh.allowDOFS(nodePosition, addedDofs);
+                }
                 if (this->configuration.logLevel >= LogLevel::TRACE) {
                     cout << "Creating discrete : " << *discrete << " over node ids : "
                             << to_string(rowNodeId) << " and : " << to_string(colNodeId) << endl;
-- 
2.43.0


From 045ee6b7066af01fd68c62f823a2b9daf5a41844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:09 +0000
Subject: [PATCH 061/153] fix: orientation of CBUSH elements was ignored in
 Aster

---
 Aster/AsterWriter.cpp | 14 ++++++++++++++
 Aster/AsterWriter.h   |  1 +
 2 files changed, 15 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index e55b202..1e9782a 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1083,6 +1083,17 @@ void AsterWriter::writeMaterials() {
     }
 }
 
+bool AsterWriter::isInOrientationFrame(const CellElementSet& cellElementSet) const {
+    if (cellElementSet.type != ElementSet::Type::STRUCTURAL_SEGMENT) {
+        return false;
+    }
+    const auto& cells = cellElementSet.getCellsIncludingGroups();
+    return not cells.empty() and all_of(cells.begin(), cells.end(), [this](const Cell& cell) {
+        return cell.cspos != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID
+            and asterModel->model.mesh.getCoordinateSystemByPosition(cell.cspos)->type == CoordinateSystem::Type::RELATIVE;
+    });
+}
+
 void AsterWriter::writeAffeCaraElem() {
 	calc_sigm = false;
 	if (not asterModel->model.elementSets.empty()) {
@@ -1167,6 +1178,9 @@ void AsterWriter::writeAffeCaraElem() {
                     if (not discret_1d->isSymmetric()) {
                         syme = "SYME='NON',";
                     }
+                    if (isInOrientationFrame(*discret_1d)) {
+                        syme += "REPERE='LOCAL',";
+                    }
                     comm_file_ofs << "                             _F(";
                     writeCellContainer(static_pointer_cast<CellContainer>(discret_1d));
                     comm_file_ofs << endl;
diff --git a/Aster/AsterWriter.h b/Aster/AsterWriter.h
index eb63ba8..a91155f 100644
--- a/Aster/AsterWriter.h
+++ b/Aster/AsterWriter.h
@@ -46,6 +46,7 @@ class AsterWriter final : public Writer {
 	void writeValues();
 	void writeMaterials();
 	void writeAffeCaraElem();
+	bool isInOrientationFrame(const CellElementSet&) const;
 	void writeAffeCaraElemPoutre(const std::shared_ptr<Beam>&);
 	void writeAffeCharMeca();
 	void writeDefiContact();
-- 
2.43.0


From bdcba837c48d39ee7f051f2a4bce628bb7d0ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:32 +0000
Subject: [PATCH 062/153] fix: CBUSH elements on one point were written as
 segments in Aster

---
 Aster/AsterWriter.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 1e9782a..74b79b0 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1178,13 +1178,18 @@ void AsterWriter::writeAffeCaraElem() {
                     if (not discret_1d->isSymmetric()) {
                         syme = "SYME='NON',";
                     }
+                    const auto& discretCells = discret_1d->getCellsIncludingGroups();
+                    const bool onPoints = not discretCells.empty() and all_of(discretCells.begin(), discretCells.end(), [](const Cell& cell) {
+                        return cell.type == CellType::POINT1;
+                    });
+                    const string sizeMarker = onPoints ? "N" : "L";
                     if (isInOrientationFrame(*discret_1d)) {
                         syme += "REPERE='LOCAL',";
                     }
                     comm_file_ofs << "                             _F(";
                     writeCellContainer(static_pointer_cast<CellContainer>(discret_1d));
                     comm_file_ofs << endl;
-                    comm_file_ofs << "                                " << syme << "CARA='K_T" << rotationMarker << "_" << diagonalMarker << "L', VALE=(";
+                    comm_file_ofs << "                                " << syme << "CARA='K_T" << rotationMarker << "_" << diagonalMarker << sizeMarker << "', VALE=(";
                     for (double rigi : discret_1d->asStiffnessVector())
                         comm_file_ofs << rigi << ",";
                     comm_file_ofs << "),)," << endl;
@@ -1193,7 +1198,7 @@ void AsterWriter::writeAffeCaraElem() {
                         comm_file_ofs << "                             _F(";
                         writeCellContainer(static_pointer_cast<CellContainer>(discret_1d));
                         comm_file_ofs << endl;
-                        comm_file_ofs << "                                " << syme << "CARA='A_T" << rotationMarker << "_" << diagonalMarker << "L', VALE=(";
+                        comm_file_ofs << "                                " << syme << "CARA='A_T" << rotationMarker << "_" << diagonalMarker << sizeMarker << "', VALE=(";
                         for (double amor : discret_1d->asDampingVector())
                             comm_file_ofs << amor << ",";
                         comm_file_ofs << "),)," << endl;
@@ -1203,7 +1208,7 @@ void AsterWriter::writeAffeCaraElem() {
                         comm_file_ofs << "                             _F(";
                         writeCellContainer(static_pointer_cast<CellContainer>(discret_1d));
                         comm_file_ofs << endl;
-                        comm_file_ofs << "                                " << syme << "CARA='M_T" << rotationMarker << "_" << diagonalMarker << "L', VALE=(";
+                        comm_file_ofs << "                                " << syme << "CARA='M_T" << rotationMarker << "_" << diagonalMarker << sizeMarker << "', VALE=(";
 
                         for (double mass : discret_1d->asMassVector())
                             comm_file_ofs << mass << ",";
-- 
2.43.0


From c9c6e26d62516b821cbe990f6709b0f494ebe72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:32 +0000
Subject: [PATCH 063/153] fix: two properties of springs between several
 components ended the translation

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 4f35b14..fe67911 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1937,7 +1937,7 @@ void Model::splitElementsByDOFS(){
                 cout<< *elementSet << " spring must be split."<<endl;
             for (const auto & it : ss->getCellPositionByDOFS()){
                 const auto& scalarSpring = make_shared<ScalarSpring>(*this, Identifiable<ElementSet>::NO_ORIGINAL_ID, stiffness, damping);
-                const auto& cellGroup = this->mesh.createCellGroup(ss->name+"_"+to_string(i), Group::NO_ORIGINAL_ID);
+                const auto& cellGroup = this->mesh.createCellGroup(ss->name+"_"+to_string(ss->getId())+"_"+to_string(i), Group::NO_ORIGINAL_ID);
                 scalarSpring->add(*cellGroup);
                 for (const auto cellPosition : it.second){
                     scalarSpring->addSpring(cellPosition, it.first.first, it.first.second);
-- 
2.43.0


From 3868fb4db5fd58760240c3d48278a238bd82f1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 064/153] fix: cards have the same fields whatever their layout
 (blank fields before continuations, comments inside cards, mixed formats,
 free fields)

---
 Nastran/NastranTokenizer.cpp | 266 ++++++++++++++++-------------------
 Nastran/NastranTokenizer.h   |  12 +-
 2 files changed, 128 insertions(+), 150 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index dc05170..58a20db 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -9,7 +9,6 @@
  */
 
 #include <boost/algorithm/string.hpp>
-#include <boost/tokenizer.hpp>
 #include <boost/filesystem.hpp>
 #include <boost/lexical_cast.hpp>
 #include <iostream>
@@ -23,8 +22,6 @@
 #include <ciso646>
 
 using namespace std;
-using boost::tokenizer;
-using boost::offset_separator;
 using boost::lexical_cast;
 using boost::trim_copy;
 
@@ -62,9 +59,8 @@ const map<string, NastranTokenizer::CommentType> NastranTokenizer::commentTypeBy
 };
 
 NastranTokenizer::LineType NastranTokenizer::getLineType(const string& line) {
-	const string beginning = line.substr(0, 8);
-	if (beginning.find(",") == string::npos) {
-		if (beginning.find("*") == string::npos) {
+	if (line.substr(0, SFSIZE + 2).find(",") == string::npos) {
+		if (line.substr(0, SFSIZE).find("*") == string::npos) {
 			return LineType::SHORT_FORMAT;
 		} else {
 			return LineType::LONG_FORMAT;
@@ -119,86 +115,136 @@ string NastranTokenizer::nextSymbolString() {
     return result;
 }
 
-bool NastranTokenizer::readLineSkipComment(string& line, bool firstLine) {
-	bool eof = true;
-	while (getline(this->instrream, line)) {
-		lineNumber += 1;
-		bool blankLine = all_of(line.begin(), line.end(), [](int c) {return isblank(c);});
-		if (not line.empty() and not blankLine and line[0] != '$') {
-			boost::iterator_range<string::iterator> middle_dollar = boost::find_first(line, "$");
-			if (middle_dollar) {
-				boost::erase_tail(line,
-						static_cast<int>(line.size())
-								- static_cast<int>(distance(line.begin(), middle_dollar.begin())));
-			}
-			//if the line is not blank exit the loop
-			if (!boost::all(line, [](int c) { return isblank(c); })){
-				eof = false;
-				break;
-			}
-        } else if (not firstLine and blankLine) {
-            eof = false;
-            break;
-		} else if (boost::starts_with(line, HM_COMMENT_START)) {
-		    boost::erase_head(line, static_cast<int>(HM_COMMENT_START.size()));
-		    vector<string> commentParts;
-		    boost::split(commentParts, line, boost::is_any_of(" \""), boost::token_compress_on);
-            if (commentParts.size() >= 3) {
-                bool isPart2Int = all_of(commentParts[1].begin(), commentParts[1].end(), ::isdigit);
-                auto result = commentTypeByString.find(commentParts[0]);
-                if (isPart2Int and result != commentTypeByString.end()) {
-                    labelByCommentTypeAndId[{result->second, stoi(commentParts[1])}] = commentParts[2];
-                }
-            }
-		}
+bool NastranTokenizer::getNextLine(string& line) {
+	if (!getline(this->instrream, line)) {
+		return false;
+	}
+	lineNumber += 1;
+	if (not line.empty() and line.back() == '\r') {
+		line.pop_back();
 	}
-	return eof;
+	return true;
 }
 
-void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
-	if (firstLine) {
-		split(currentLineVector, line, boost::is_any_of(","));
-	} else {
-		//skip first field;
-		string lineNoContinuation = line.substr(line.find(',') + 1);
-		vector<string> otherLine;
-		split(otherLine, lineNoContinuation, boost::is_any_of(","));
-		currentLineVector.insert(currentLineVector.end(), otherLine.begin(), otherLine.end());
+void NastranTokenizer::eraseComment(string& line) {
+	const size_t dollar = line.find('$');
+	if (dollar != string::npos) {
+		line.erase(dollar);
 	}
-	bool explicitContinuation = false;
-	for (size_t fieldIndex = 1; fieldIndex < currentLineVector.size(); fieldIndex += 8) {
-		string field = trim_copy(currentLineVector[fieldIndex]);
-		if (field[0] == '+') {
-			explicitContinuation = true;
-			currentLineVector.erase(currentLineVector.begin() + fieldIndex);
+}
+
+bool NastranTokenizer::isBlankLine(const string& line) {
+	return all_of(line.begin(), line.end(), [](int c) {return isblank(c);});
+}
+
+void NastranTokenizer::parseComment(string line) {
+	if (boost::starts_with(line, HM_COMMENT_START)) {
+		boost::erase_head(line, static_cast<int>(HM_COMMENT_START.size()));
+		vector<string> commentParts;
+		boost::split(commentParts, line, boost::is_any_of(" \""), boost::token_compress_on);
+		if (commentParts.size() >= 3) {
+			bool isPart2Int = all_of(commentParts[1].begin(), commentParts[1].end(), ::isdigit);
+			auto result = commentTypeByString.find(commentParts[0]);
+			if (isPart2Int and result != commentTypeByString.end()) {
+				labelByCommentTypeAndId[{result->second, stoi(commentParts[1])}] = commentParts[2];
+			}
 		}
 	}
-	char c = static_cast<char>(this->instrream.peek());
-    string line2;
-    if (explicitContinuation || c == ',' || c == '+' || c == '*') {
-		readLineSkipComment(line2, false);
-		splitFreeFormat(line2, false);
+}
+
+bool NastranTokenizer::readLineSkipComment(string& line) {
+	while (getNextLine(line)) {
+		if (not line.empty() and line[0] == '$') {
+			parseComment(line);
+			continue;
+		}
+		eraseComment(line);
+		if (not isBlankLine(line)) {
+			return false;
+		}
 	}
+	return true;
 }
 
-void NastranTokenizer::parseBulkSectionLine(string line) {
-	LineType lineType = getLineType(line);
-	switch (lineType) {
-	case LineType::LONG_FORMAT:
-		splitFixedFormat(line, true, true);
-		break;
-	case LineType::SHORT_FORMAT:
-		splitFixedFormat(line, false, true);
-		break;
-	case LineType::FREE_FORMAT:
-		splitFreeFormat(line, true);
+bool NastranTokenizer::readContinuation(string& line) {
+	string comment;
+	while (this->instrream.peek() == '$') {
+		getNextLine(comment);
+		parseComment(comment);
+	}
+	switch (this->instrream.peek()) {
+	case ' ':
+	case '\t': // Even if it's, strictly speaking, not authorized by Nastran
+	case '+':
+	case '*':
+	case ',':
 		break;
 	default:
-		throw vega::ParsingException("line format not recognized: Line N ", this->fileName,
-				lineNumber);
+		return false;
+	}
+	if (not getNextLine(line)) {
+		return false;
+	}
+	eraseComment(line);
+	return true;
+}
+
+void NastranTokenizer::splitFreeFormat(const string& line, vector<string>& fields) {
+	split(fields, line, boost::is_any_of(","));
+	if (fields.size() > FIELDS_BY_LINE + 1 and boost::starts_with(trim_copy(fields[FIELDS_BY_LINE + 1]), "+")) {
+		fields.erase(fields.begin() + FIELDS_BY_LINE + 1); // continuation marker
+	}
+}
+
+void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, vector<string>& fields) {
+	replaceTabs(line, longFormat);
+	const size_t fieldSize = longFormat ? LFSIZE : SFSIZE;
+	const size_t end = min(line.size(), SFSIZE * (FIELDS_BY_LINE + 1)); // what follows is a continuation marker
+	string name = trim_copy(line.substr(0, SFSIZE));
+	//erase all the long format specifiers
+	boost::erase_all(name, "*");
+	fields.push_back(name);
+	for (size_t pos = SFSIZE; pos < end; pos += fieldSize) {
+		fields.push_back(trim_copy(line.substr(pos, min(fieldSize, end - pos))));
 	}
 }
 
+void NastranTokenizer::parseBulkSectionLine(string line) {
+	bool firstLine = true;
+	size_t nextLineStart = 0;
+	do {
+		const bool blankLine = isBlankLine(line);
+		vector<string> fields;
+		size_t fieldsByLine = FIELDS_BY_LINE;
+		switch (getLineType(line)) {
+		case LineType::LONG_FORMAT:
+			splitFixedFormat(line, true, fields);
+			fieldsByLine = FIELDS_BY_LINE / 2;
+			break;
+		case LineType::SHORT_FORMAT:
+			splitFixedFormat(line, false, fields);
+			break;
+		case LineType::FREE_FORMAT:
+			splitFreeFormat(line, fields);
+			break;
+		default:
+			throw vega::ParsingException("line format not recognized: Line N ", this->fileName,
+					lineNumber);
+		}
+		if (firstLine) {
+			currentLineVector = fields;
+		} else if (not blankLine) {
+			// The fields that were left out at the end of the previous line are blank
+			currentLineVector.resize(max(currentLineVector.size(), nextLineStart), "");
+			currentLineVector.insert(currentLineVector.end(), fields.begin() + 1, fields.end());
+		}
+		if (firstLine or not blankLine) {
+			nextLineStart = currentLineVector.size() - (fields.size() - 1) + fieldsByLine;
+		}
+		firstLine = false;
+	} while (readContinuation(line));
+}
+
 void NastranTokenizer::executiveControlSection() {
 	this->currentSection = SectionType::SECTION_EXECUTIVE;
 }
@@ -309,7 +355,7 @@ void NastranTokenizer::nextLine() {
 	currentLineVector.reserve(128);
 	currentField = 0;
 
-	bool iseof = readLineSkipComment(this->currentLine, true);
+	bool iseof = readLineSkipComment(this->currentLine);
 	if (!iseof) {
 		switch (currentSection) {
 		case SectionType::SECTION_EXECUTIVE:
@@ -328,80 +374,6 @@ void NastranTokenizer::nextLine() {
 	}
 }
 
-void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, const bool firstLine) {
-	boost::offset_separator f;
-
-	int fieldMax;
-	if (longFormat) {
-		int offsets[] = { SFSIZE, LFSIZE, LFSIZE, LFSIZE, LFSIZE, SFSIZE };
-		fieldMax = 5;
-		f = offset_separator(offsets, offsets + 6);
-	} else {
-		int offsets[] = { SFSIZE, SFSIZE, SFSIZE, SFSIZE, SFSIZE, SFSIZE, SFSIZE, SFSIZE, SFSIZE, SFSIZE };
-		fieldMax = 9;
-		f = offset_separator(offsets, offsets + 10);
-	}
-
-	replaceTabs(line, longFormat);
-	tokenizer<offset_separator> tok(line, f);
-	tokenizer<offset_separator>::iterator beg = tok.begin();
-	int count = 0;
-	if (!firstLine) {
-		//todo:check that explicit continuation tokens are the same
-		++beg;
-		count++;
-	}
-	bool explicitContinuation = false;
-	for (; beg != tok.end(); ++beg) {
-		string trimCopy = trim_copy(*beg);
-		//erase all the long format specifiers
-		if (count == 0) {
-			boost::erase_all(trimCopy, "*");
-		}
-		currentLineVector.push_back(trimCopy);
-		if (++count == fieldMax) {
-			explicitContinuation = (++beg != tok.end()) && !(trim_copy(*beg).empty());
-			if (explicitContinuation && this->logLevel >= vega::LogLevel::TRACE) {
-				cout << "explicitContinuation" << endl;
-			}
-			break;
-		}
-	}
-	string line2;
-	char c0 = static_cast<char>(this->instrream.peek());
-
-	while (c0 == '$') { // Trying to skip "comment inside card case"
-        getline(this->instrream, line2);
-        lineNumber += 1;
-        c0 = static_cast<char>(this->instrream.peek());
-    }
-
-	if (explicitContinuation or c0 == '+') {
-		//todo:check that continuation tokens are the same
-		bool iseof = readLineSkipComment(line2, false);
-		if (!iseof) {
-			splitFixedFormat(line2, longFormat, false);
-		} else {
-			throw "Continuation Expected: Line N " + to_string(this->lineNumber);
-		}
-	} else {
-		/** Test for automatic continuation : we allow tabulation
-		 *  Even if it's, strictly speaking, not authorized by Nastran
-		 */
-		char c = static_cast<char>(this->instrream.peek());
-		if (c == ' ' || c == '+' || c == '*' || c=='\t') {
-			readLineSkipComment(line2, false);
-			//fill the current line with empty fields
-			for (; count < fieldMax; count++) {
-				currentLineVector.push_back("");
-			}
-			bool longFormat2 = (c == '*');
-			splitFixedFormat(line2, longFormat2, false);
-		}
-	}
-
-}
-
 string NastranTokenizer::nextString(bool returnDefaultIfNotFoundOrBlank, string defaultValue) {
     string value =  trim_copy(nextSymbolString());
     boost::to_upper(value);
diff --git a/Nastran/NastranTokenizer.h b/Nastran/NastranTokenizer.h
index 289b5ea..715420b 100644
--- a/Nastran/NastranTokenizer.h
+++ b/Nastran/NastranTokenizer.h
@@ -66,6 +66,7 @@ public:
 private:
     static const int SFSIZE = 8; /**< Short field size **/
     static const int LFSIZE = 16;/**< Long field size **/
+    static const size_t FIELDS_BY_LINE = 8; /**< Data fields of a line (short and free formats) **/
     static const std::string HM_COMMENT_START;
     static const std::map<std::string, CommentType> commentTypeByString;
 
@@ -76,10 +77,15 @@ private:
     NastranTokenizer::LineType getLineType(const std::string& line); /**< Determine the LineType of the line.**/
     void replaceTabs(std::string &line, bool longFormat); /**< Replace all tabulation by the needed number of space. **/
 
-    void splitFixedFormat(std::string& line, bool longFormat, bool firstLine);
+    void splitFixedFormat(std::string& line, bool longFormat, std::vector<std::string>& fields);
+    void splitFreeFormat(const std::string& line, std::vector<std::string>& fields);
 
-    bool readLineSkipComment(std::string& line, bool firstLine);
-    void splitFreeFormat(std::string line, bool firstLine);
+    bool getNextLine(std::string& line); /**< Next line of the file, without its end of line. False at end of file.**/
+    static void eraseComment(std::string& line);
+    static bool isBlankLine(const std::string& line);
+    void parseComment(std::string line);
+    bool readLineSkipComment(std::string& line); /**< Next line that is neither blank nor a comment. True at end of file.**/
+    bool readContinuation(std::string& line); /**< Next line, comments skipped, only if it continues the current card.**/
     void parseBulkSectionLine(std::string line);
     void parseParameters();
 
-- 
2.43.0


From 2a959cdd2cd328fc23114edda7014718ab02b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 065/153] fix: ENDDATA ends the bulk section

---
 Nastran/NastranParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 55df2bb..f7c6e85 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -538,6 +538,9 @@ void NastranParser::parseBULKSection(NastranTokenizer &tok, Model& model) {
     while (tok.nextSymbolType == NastranTokenizer::SymbolType::SYMBOL_KEYWORD) {
         string keyword = tok.nextString(true,"");
         tok.setCurrentKeyword(keyword);
+        if (keyword == "ENDDATA") {
+            break; // what follows does not belong to the model
+        }
         try{
             auto parser = findCmdParser(keyword);
             if (parser != nullptr) {
-- 
2.43.0


From 2e62c5bce64568c31a293695c6faeebf7c54288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 066/153] fix: unfinished lines of long formats and of lists of
 identifiers are continued

---
 Nastran/NastranTokenizer.cpp | 33 +++++++++++++++++++++++++++++++--
 Nastran/NastranTokenizer.h   |  7 +++++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 58a20db..eb29356 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -95,6 +95,12 @@ void NastranTokenizer::replaceTabs(string& line, bool longFormat) {
 }
 
 
+void NastranTokenizer::skipLeftOutFields() {
+    while (leftOutFields.find(this->currentField) != leftOutFields.end()) {
+        this->currentField++; // fields are never left out at the end of the card
+    }
+}
+
 string NastranTokenizer::nextSymbolString() {
 
     if (this->currentField >= this->currentLineVector.size()){
@@ -212,11 +218,17 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, vec
 void NastranTokenizer::parseBulkSectionLine(string line) {
 	bool firstLine = true;
 	size_t nextLineStart = 0;
+	LineType previousType = LineType::SHORT_FORMAT;
+	leftOutFields.clear();
 	do {
 		const bool blankLine = isBlankLine(line);
 		vector<string> fields;
 		size_t fieldsByLine = FIELDS_BY_LINE;
-		switch (getLineType(line)) {
+		LineType lineType = getLineType(line);
+		if (not firstLine and previousType == LineType::LONG_FORMAT and lineType == LineType::SHORT_FORMAT and boost::starts_with(line, "+")) {
+			lineType = LineType::LONG_FORMAT;
+		}
+		switch (lineType) {
 		case LineType::LONG_FORMAT:
 			splitFixedFormat(line, true, fields);
 			fieldsByLine = FIELDS_BY_LINE / 2;
@@ -235,11 +247,15 @@ void NastranTokenizer::parseBulkSectionLine(string line) {
 			currentLineVector = fields;
 		} else if (not blankLine) {
 			// The fields that were left out at the end of the previous line are blank
-			currentLineVector.resize(max(currentLineVector.size(), nextLineStart), "");
+			while (currentLineVector.size() < nextLineStart) {
+				leftOutFields.insert(currentLineVector.size());
+				currentLineVector.push_back("");
+			}
 			currentLineVector.insert(currentLineVector.end(), fields.begin() + 1, fields.end());
 		}
 		if (firstLine or not blankLine) {
 			nextLineStart = currentLineVector.size() - (fields.size() - 1) + fieldsByLine;
+			previousType = lineType;
 		}
 		firstLine = false;
 	} while (readContinuation(line));
@@ -375,6 +391,9 @@ void NastranTokenizer::nextLine() {
 }
 
 string NastranTokenizer::nextString(bool returnDefaultIfNotFoundOrBlank, string defaultValue) {
+    if (not returnDefaultIfNotFoundOrBlank) {
+        skipLeftOutFields();
+    }
     string value =  trim_copy(nextSymbolString());
     boost::to_upper(value);
     if (value.empty()) {
@@ -416,6 +435,9 @@ void NastranTokenizer::skipToNextKeyword() {
 
 int NastranTokenizer::nextInt(bool returnDefaultIfNotFoundOrBlank, int defaultValue) {
 	int result = 0;
+	if (not returnDefaultIfNotFoundOrBlank) {
+		skipLeftOutFields();
+	}
 	string value = trim_copy(nextSymbolString());
 	if (value.empty()) {
 	    if (returnDefaultIfNotFoundOrBlank){
@@ -439,6 +461,7 @@ int NastranTokenizer::nextInt(bool returnDefaultIfNotFoundOrBlank, int defaultVa
 
 list<int> NastranTokenizer::nextInts() {
 	list<int> result;
+	skipLeftOutFields();
 	while(isNextInt() or isNextTHRU()) {
         if (isNextInt()) {
             result.push_back(nextInt());
@@ -463,20 +486,26 @@ list<int> NastranTokenizer::nextInts() {
                 result.push_back(endint); // the last item always belongs to the list
             }
         }
+        skipLeftOutFields();
 	}
 	return result;
 }
 
 list<double> NastranTokenizer::nextDoubles() {
 	list<double> result;
+	skipLeftOutFields();
 	while(isNextDouble()) {
       result.push_back(nextDouble());
+      skipLeftOutFields();
 	}
 	return result;
 }
 
 double NastranTokenizer::nextDouble(bool returnDefaultIfNotFoundOrBlank, double defaultValue) {
 	double result = 0.0;
+	if (not returnDefaultIfNotFoundOrBlank) {
+		skipLeftOutFields();
+	}
 	string value = trim_copy(nextSymbolString());
 	if (value.empty()) {
 	    if (returnDefaultIfNotFoundOrBlank) {
diff --git a/Nastran/NastranTokenizer.h b/Nastran/NastranTokenizer.h
index 715420b..0c8c52f 100644
--- a/Nastran/NastranTokenizer.h
+++ b/Nastran/NastranTokenizer.h
@@ -29,6 +29,7 @@
 #include <vector>
 #include <iostream>
 #include <limits>
+#include <set>
 #include "../Abstract/ConfigurationParameters.h"
 #include "../Abstract/SolverInterfaces.h"
 
@@ -72,6 +73,7 @@ private:
 
     unsigned int currentField;   /**< Current position of the Tokenizer, i.e, the next field to be interpreted **/
     std::vector<std::string> currentLineVector;
+    std::set<size_t> leftOutFields; /**< Blank fields of the current card that stand for the missing end of a continued line **/
     std::string currentLine = "";
 
     NastranTokenizer::LineType getLineType(const std::string& line); /**< Determine the LineType of the line.**/
@@ -96,6 +98,11 @@ private:
     //string nextBulkString();
     std::string nextSymbolString();
 
+    /**
+     * Lists and compulsory values go on with the next line when a continued line is left unfinished.
+     */
+    void skipLeftOutFields();
+
 public:
     enum class SymbolType {
         SYMBOL_KEYWORD = 0,
-- 
2.43.0


From d23125a9b990daec74cf3a9a3234e0418703d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 067/153] fix: Optistruct element SET lost its elements

---
 Optistruct/OptistructParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Optistruct/OptistructParser.cpp b/Optistruct/OptistructParser.cpp
index a71869a..9e830ed 100644
--- a/Optistruct/OptistructParser.cpp
+++ b/Optistruct/OptistructParser.cpp
@@ -129,7 +129,7 @@ void OptistructParser::parseSET(nastran::NastranTokenizer& tok, Model& model) {
         const auto& setValue = make_shared<SetValue<int>>(model, set<int>{ids.begin(), ids.end()}, sid);
         model.add(setValue);
         shared_ptr<CellGroup> cellGroup = model.mesh.createCellGroup(name,CellGroup::NO_ORIGINAL_ID,"SET");
-        for (const auto& id : tok.nextInts()) {
+        for (const auto& id : ids) {
             cellGroup->addCellId(id);
         }
         tok.skipToNotEmpty();
-- 
2.43.0


From b08595d1f1c4c06dcdc87c6e9d02d4a3f0523043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:19 +0000
Subject: [PATCH 068/153] fix: integers with a plus sign were not recognised in
 lists and optional fields

---
 Nastran/NastranTokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index eb29356..164b91b 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -288,7 +288,7 @@ bool NastranTokenizer::isNextInt() {
 		return false;
 	}
 	string curField = trim_copy(currentLineVector[currentField]);
-	return !curField.empty() && (strspn(curField.c_str(), "-0123456789") == curField.size());
+	return !curField.empty() && (strspn(curField.c_str(), "-+0123456789") == curField.size());
 }
 
 bool NastranTokenizer::isNextTHRU() {
-- 
2.43.0


From 6dba03f84c4de1e86a1e551322b8cfeba64d9da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:19 +0000
Subject: [PATCH 069/153] fix: PBARL and PBEAML written with their default
 cross-section group were rejected

---
 Nastran/NastranParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index f7c6e85..18c3f9a 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2164,8 +2164,8 @@ void NastranParser::parsePBARL(NastranTokenizer& tok, Model& model) {
     int propertyId = tok.nextInt(); // PID
     int mid = tok.nextInt();
 
-    string group = tok.nextString(true, "MSCBML0");
-    if (group!="MSCBML0"){
+    string group = tok.nextString(true, "MBSCBML0");
+    if (group != "MBSCBML0" and group != "MSCBML0"){
         string message = "PBARL users defined groups are not supported.";
         handleParsingError(message, tok, model);
     }
@@ -2342,8 +2342,8 @@ void NastranParser::parsePBEAML(NastranTokenizer& tok, Model& model) {
     int pid = tok.nextInt();
     int mid = tok.nextInt();
 
-    string group = tok.nextString(true, "MSCBML0");
-    if (group!="MSCBML0"){
+    string group = tok.nextString(true, "MBSCBML0");
+    if (group != "MBSCBML0" and group != "MSCBML0"){
         string message = "PBARL users defined groups are not supported.";
         handleParsingError(message, tok, model);
     }
-- 
2.43.0


From ec756866fc75946509ba6c95ee31c406a10289f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:19 +0000
Subject: [PATCH 070/153] fix: PCOMP written with its default TREF and GE was
 rejected

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 18c3f9a..646d57a 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2549,9 +2549,9 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
     } else {
         handleParsingError("PCOMP FT value: " + ft + " not yet handled", tok, model);
     }
-    if (tok.isNextEmpty(2)) {
-        tok.skip(2);
-    } else {
+    const double tref = tok.nextDouble(true, 0.0);
+    const double ge = tok.nextDouble(true, 0.0);
+    if (not is_zero(tref) or not is_zero(ge)) {
         handleParsingError("PCOMP fields not yet handled", tok, model);
     }
     const string& lam = tok.nextString(true, "");
-- 
2.43.0


From e27cf611d6b51b6a5628cf296e27e0815b4ac44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:56 +0000
Subject: [PATCH 071/153] fix: Aster gap: coefficient along Z was defined when
 the gap had a Y component

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 74b79b0..586a58b 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1585,7 +1585,7 @@ void AsterWriter::writeDefiContact() {
 							<< "=DEFI_CONSTANTE(VALE=" << gapParticipation->direction.y() << ")"
 							<< endl;
 				}
-				if (!is_zero(gapParticipation->direction.y())) {
+				if (!is_zero(gapParticipation->direction.z())) {
 					comm_file_ofs << "C" << constraintSet.getId() << "MZ" << to_string(gapCount)
 							<< "=DEFI_CONSTANTE(VALE=" << gapParticipation->direction.z() << ")"
 							<< endl;
-- 
2.43.0


From 3bd6f3eb983b8c139807879040c4e3dead99a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:56 +0000
Subject: [PATCH 072/153] fix: Aster gaps: the coefficients of several gaps of
 a set had the same names

---
 Aster/AsterWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 586a58b..e242648 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1568,9 +1568,9 @@ void AsterWriter::writeDefiContact() {
 //        const auto& surfaceSlides = constraintSet.getConstraintsByType(
 //				Constraint::Type::SURFACE_SLIDE_CONTACT);
         const auto& zones = constraintSet.getConstraintsByType(Constraint::Type::ZONE_CONTACT);
+		int gapCount = 0;
 		for (const auto& constraint : gaps) {
 			const auto& gap = static_pointer_cast<const Gap>(constraint);
-			int gapCount = 0;
 			for (const auto& gapParticipation : gap->getGaps()) {
 				gapCount++;
 				comm_file_ofs << "C" << constraintSet.getId() << "I" << to_string(gapCount)
@@ -1607,9 +1607,9 @@ void AsterWriter::writeDefiContact() {
 		    comm_file_ofs << "                   FORMULATION='CONTINUE'," << endl;
 		}
 		comm_file_ofs << "                   ZONE=(" << endl;
+		gapCount = 0;
 		for (const auto& constraint : gaps) {
 			const auto& gap = static_pointer_cast<Gap>(constraint);
-			int gapCount = 0;
 			for (const auto& gapParticipation : gap->getGaps()) {
 				gapCount++;
 				comm_file_ofs << "                             _F(";
-- 
2.43.0


From 61e18e848f3e464056b1dd7b2981c46cf7c8b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:56 +0000
Subject: [PATCH 073/153] fix: Aster modal response: reused modes had a wrong
 name

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index e242648..e7482e1 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2881,7 +2881,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             if (reusableAnalysis->type == Analysis::Type::LINEAR_MODAL)
                 modalResuName = "RESU" + to_string(reusableAnalysis->getId());
             else
-                modalResuName = "MOD" + to_string(reusableAnalysis->getId());
+                modalResuName = "MO" + to_string(reusableAnalysis->getId());
 		    comm_file_ofs << "# Reusing previous results: " << modalResuName << " for analysis " << *analysis << endl;
             handleWritingWarning("Reusing previous results: " + modalResuName + " for analysis " + to_str(*analysis));
 		}
-- 
2.43.0


From 9473610bf80828e96e28823ada78904a043a6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:56 +0000
Subject: [PATCH 074/153] fix: Aster modal damping of type G: the critical
 ratio is half of it, and the function had no name

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index e7482e1..90834a9 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -3067,7 +3067,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
                 break;
             }
             case (ModalDamping::DampingType::G): {
-                comm_file_ofs << "AMMOS" << analysis->getId() << " = CALC_FONCTION(COMB=_F(COEF=2.0, FONCTION=" << analysis->getId() << "))" << endl;
+                comm_file_ofs << "AMMOS" << analysis->getId() << " = CALC_FONCTION(COMB=_F(COEF=0.5, FONCTION=AMMOI" << analysis->getId() << "))" << endl;
                 destroyableConcepts.push_back("AMMOS" + to_string(analysis->getId()));
                 break;
             }
-- 
2.43.0


From 8650ca4a77c558dd3c5abf6da686ef4e61dc80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:47 +0000
Subject: [PATCH 075/153] fix: Nastran RBE2 of some components had the id of
 its constraint set instead of its own

---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index c43d079..7f7b177 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -465,7 +465,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
                 out << rbar;
             } else {
                 Line rbe2("RBE2");
-                rbe2.add(constraintSet->bestId());
+                rbe2.add(quasiRigid->bestId());
                 const int masterId = model.mesh.findNodeId(quasiRigid->getMaster());
                 rbe2.add(masterId);
                 rbe2.add(quasiRigid->getDOFS());
-- 
2.43.0


From 04ecf49a181585caba52b22e8e7db29bb560884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 076/153] fix: Nastran: permanent constraints were written in a
 set 0 that nothing can select

---
 Nastran/NastranWriter.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 7f7b177..8c032d1 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -370,10 +370,27 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 
 void NastranWriter::writeNodes(const Model& model, ofstream& out) const
 		{
+    map<int, DOFS> permanentSpcByNodeId; // constraints of every analysis
+    for (const auto& constraintSet : model.constraintSets) {
+        if (constraintSet->type != ConstraintSet::Type::ALL) {
+            continue;
+        }
+        for (const auto& constraint : constraintSet->getConstraintsByType(Constraint::Type::SPC)) {
+            for (const auto nodePosition : constraint->nodePositions()) {
+                permanentSpcByNodeId[model.mesh.findNodeId(nodePosition)] += constraint->getDOFSForNode(nodePosition);
+            }
+        }
+    }
 	for (Node node : model.mesh.nodes) {
         if (node.displacementCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
             cerr << "Warning in GRID "<<node.id<<" CD not supported and dismissed."<<endl;
-		out << Line("GRID").add(node.id).add().add(node.x).add(node.y).add(node.z);
+		Line grid("GRID");
+		grid.add(node.id).add().add(node.x).add(node.y).add(node.z);
+		const auto& permanentSpc = permanentSpcByNodeId.find(node.id);
+		if (permanentSpc != permanentSpcByNodeId.end()) {
+			grid.add().add(permanentSpc->second);
+		}
+		out << grid;
 	}
 }
 
@@ -416,6 +433,10 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
 		const auto& spcs = constraintSet->getConstraintsByType(Constraint::Type::SPC);
         for (const auto& constraint : spcs) {
             const auto& spc = static_pointer_cast<SinglePointConstraint>(constraint);
+            if (constraintSet->type == ConstraintSet::Type::ALL) {
+                spc->markAsWritten(); // in GRID
+                continue;
+            }
             for (const auto nodePosition : spc->nodePositions()) {
                 const int nodeId = model.mesh.findNodeId(nodePosition);
                 DOFS blocked;
@@ -1022,6 +1043,9 @@ string NastranWriter::writeModel(Model& model,
 			out << "  " << typeName << "=" << loadSet->bestId() << endl;
 		}
 		for (const auto& constraintSet : analysis->getConstraintSets()) {
+			if (constraintSet->type == ConstraintSet::Type::ALL) {
+				continue; // permanent constraints have no case control command
+			}
 			string typeName = constraintSet->stringByType.find(constraintSet->type)->second;
 			out << "  " << typeName << "=" << constraintSet->bestId() << endl;
 		}
-- 
2.43.0


From 4d3c5ae19a719fb5f19847759fa4736fb047cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:25 +0000
Subject: [PATCH 077/153] fix: Nastran: scalar springs and dampers were written
 as CBUSH without property

---
 Nastran/NastranWriter.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 8c032d1..61cfdf6 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -248,6 +248,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 		if (elementSet->isMatrixElement()) {
 			continue;
 		}
+		if (elementSet->type == ElementSet::Type::SCALAR_SPRING) {
+			continue; // written with its values, as scalar elements
+		}
 		for (const pos_t cellPosition : elementSet->cellPositions()) {
             const Cell& cell = model.mesh.findCell(cellPosition);
 			string keyword;
@@ -940,6 +943,24 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
         out << pbush;
         elementSet->markAsWritten();
 	}
+    for (const auto& elementSet: model.elementSets.filter(ElementSet::Type::SCALAR_SPRING)) {
+        const auto& spring = static_pointer_cast<const ScalarSpring>(elementSet);
+        if (spring->hasMass() or (spring->hasStiffness() and spring->hasDamping())) {
+            handleWritingError("scalar spring not completely written");
+        }
+        for (const auto& entry : spring->getCellPositionByDOFS()) {
+            for (const pos_t cellPosition : entry.second) {
+                const Cell& cell = model.mesh.findCell(cellPosition);
+                Line scalar(spring->hasDamping() ? "CDAMP2" : "CELAS2");
+                scalar.add(cell.id);
+                scalar.add(spring->hasDamping() ? spring->getDamping() : spring->getStiffness());
+                scalar.add(cell.nodeIds.front()).add(DOFS(entry.first.first));
+                scalar.add(cell.nodeIds.back()).add(DOFS(entry.first.second));
+                out << scalar;
+            }
+        }
+        elementSet->markAsWritten();
+	}
 }
 
 string NastranWriter::writeModel(Model& model,
-- 
2.43.0


From 5fe6dda00dfba1604940c1cd6473685767cd12be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:51 +0000
Subject: [PATCH 078/153] fix: Nastran: rotations were not written

---
 Abstract/Loading.h        |  3 +++
 Nastran/NastranWriter.cpp | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/Abstract/Loading.h b/Abstract/Loading.h
index 657e7de..7ef2706 100644
--- a/Abstract/Loading.h
+++ b/Abstract/Loading.h
@@ -207,6 +207,9 @@ public:
 	double getSpeed() const override;
 	VectorialValue getAxis() const override;
 	VectorialValue getCenter() const override;
+	pos_t getNodePosition() const noexcept {
+		return node_position;
+	}
 	std::unique_ptr<Loading> clone() const override;
 	void scale(const double factor) override;
 };
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 61cfdf6..0b8c669 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -616,6 +616,25 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
             gravity->markAsWritten();
         }
 
+		for (const auto& loading : loadingSet->getLoadingsByType(Loading::Type::ROTATION)) {
+            const auto& rotation = static_pointer_cast<Rotation>(loading);
+            const auto& rotationNode = dynamic_pointer_cast<RotationNode>(rotation);
+            Line rforce("RFORCE");
+            rforce.add(loadingSet->bestId());
+            if (rotationNode != nullptr) {
+                rforce.add(model.mesh.findNodeId(rotationNode->getNodePosition()));
+            } else if (rotation->getCenter().iszero()) {
+                rforce.add(0); // origin of the basic coordinate system
+            } else {
+                handleWritingError("Rotation around a point which is not a node");
+            }
+            rforce.add(0);
+            rforce.add(rotation->getSpeed() / (2 * M_PI)); // revolutions per unit time
+            rforce.add(rotation->getAxis().normalized());
+            out << rforce;
+            rotation->markAsWritten();
+        }
+
 		const auto& forceSurfaces = loadingSet->getLoadingsByType(
 				Loading::Type::FORCE_SURFACE);
         for (const auto& loading : forceSurfaces) {
-- 
2.43.0


From cafd5f00b0fd7ce25f647c4cc18d2119a9961763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:39 +0000
Subject: [PATCH 079/153] fix: SPCFORCES and MPCFORCES requests no longer
 select constraint sets

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 646d57a..31b1849 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -850,7 +850,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
             key = options[0];
             options.erase(options.begin());
         }
-        if (!key.compare(0, 3, "SPC")) {
+        if (key == "SPC") { // and not SPCFORCES
             Reference<ConstraintSet> constraintReference(ConstraintSet::Type::SPC, id);
             analysis->add(constraintReference);
             if (!model.find(constraintReference)) { // constraintSet is added in the model if not found in the model
@@ -858,7 +858,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 constraintSet->setInputContext(tok.getInputContext());
                 model.add(constraintSet);
             }
-        } else if (!key.compare(0, 3, "MPC")) {
+        } else if (key == "MPC") { // and not MPCFORCES
             Reference<ConstraintSet> constraintReference(ConstraintSet::Type::MPC, id);
             analysis->add(constraintReference);
             if (!model.find(constraintReference)) { // constraintSet is added in the model if not found in the model
-- 
2.43.0


From 8fb94c60d71ae4ba788eab0c10761073ecee0469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:39 +0000
Subject: [PATCH 080/153] fix: a selection of a subcase supersedes the one
 above also when written with another option or abbreviation

---
 Nastran/NastranParser.cpp | 27 +++++++++++++++++++++++----
 Nastran/NastranParser.h   |  1 +
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 31b1849..382cab5 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -189,6 +189,25 @@ const std::unordered_map<std::string, NastranParser::NastranAnalysis> NastranPar
         { "DESOPT", NastranAnalysis::DESOPT },
 };
 
+void NastranParser::putIntoContext(map<string, string>& context, const string& keyword, const string& value) {
+    // A selection supersedes the one made above, whatever the option or the abbreviation it was written with
+    const auto& selectionName = [](const string& key) {
+        const string& name = trim_copy(key.substr(0, key.find('(')));
+        if (name == "METHOD" or name == "SDAMPING") {
+            return key.find("FLUID") != string::npos ? key : name;
+        }
+        return name.compare(0, 4, "FREQ") == 0 ? string("FREQ") : key;
+    };
+    for (auto it = context.begin(); it != context.end();) {
+        if (selectionName(it->first) == selectionName(keyword)) {
+            it = context.erase(it);
+        } else {
+            ++it;
+        }
+    }
+    context[keyword] = value;
+}
+
 string NastranParser::parseSubcase(NastranTokenizer& tok, Model& model,
         map<string, string> context) {
     const auto& inputContext = tok.getInputContext();
@@ -217,7 +236,7 @@ string NastranParser::parseSubcase(NastranTokenizer& tok, Model& model,
             if (ACCEPTED_CASE_CONTROL_COMMANDS.find(nextKeywordWithoutOptions) == ACCEPTED_CASE_CONTROL_COMMANDS.end()) {
                 handleParsingWarning("Unknown case control command: " + nextKeywordWithoutOptions + " in subcase " + to_string(subCaseId), tok, model);
             }
-            context[nextKeyword] = line;
+            putIntoContext(context, nextKeyword, line);
             if (model.configuration.logLevel >= LogLevel::TRACE) {
                 cout << "Put into context :" << nextKeyword << "=" << line << endl;
             }
@@ -259,7 +278,7 @@ string NastranParser::parseSubcom(NastranTokenizer& tok, Model& model,
             if (ACCEPTED_CASE_CONTROL_COMMANDS.find(nextKeywordWithoutOptions) == ACCEPTED_CASE_CONTROL_COMMANDS.end()) {
                 handleParsingWarning("Unknown case control command: " + nextKeywordWithoutOptions + " in subcom " + to_string(subComId), tok, model);
             }
-            context[nextKeyword] = line;
+            putIntoContext(context, nextKeyword, line);
         } else {
             bParseSubcom=false;
         }
@@ -489,14 +508,14 @@ void NastranParser::parseExecutiveSection(NastranTokenizer& tok, Model& model,
                         if (parts.size() >= 2) {
                             handleParsingError("multiple spaces in parameter not yet implemented", tok, model);
                         }
-                        context[keyword] = parvalparts[1];
+                        putIntoContext(context, keyword, parvalparts[1]);
                     } else {
                         trim(parts[0]);boost::to_upper(parts[0]);
                         string partWithoutOptions = parts[0].substr(0, parts[0].find('('));
                         if (ACCEPTED_CASE_CONTROL_COMMANDS.find(partWithoutOptions) == ACCEPTED_CASE_CONTROL_COMMANDS.end()) {
                             handleParsingWarning("Unknown case control command: " + partWithoutOptions + " in executive section", tok, model);
                         }
-                        context[parts[0]] = parts[1];
+                        putIntoContext(context, parts[0], parts[1]);
                     }
                 }
             }
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 5d3dcf6..1e490e1 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -85,6 +85,7 @@ private:
     void parseBULKSection(NastranTokenizer &tok, Model& model1);
 
     void parseExecutiveSection(NastranTokenizer& tok, Model& model, std::map<std::string, std::string>& context);
+    static void putIntoContext(std::map<std::string, std::string>& context, const std::string& keyword, const std::string& value);
     /**Renumbers the nodes
      * The map has no keys for CellTypes that have the same connectivity in Nastran and Med
      *
-- 
2.43.0


From e1f3885c381dd2b41f82663159f0e73a46c90ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:39 +0000
Subject: [PATCH 081/153] fix: the subcases of SOL 105 without METHOD are
 static ones

---
 Nastran/NastranParser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 382cab5..981972e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -726,7 +726,15 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
             labelAnalysis = commentEntry->second;
     }
 
-    if (analysis_type == NastranAnalysis::STATIC or (analysis_type == NastranAnalysis::BUCKL and previous == nullptr)) {
+    bool hasMethod = false;
+    for (const auto& contextEntry : context) {
+        if (contextEntry.first.compare(0, 6, "METHOD") == 0) {
+            hasMethod = true;
+        }
+    }
+
+    // In SOL 105, the subcases without METHOD are static ones
+    if (analysis_type == NastranAnalysis::STATIC or (analysis_type == NastranAnalysis::BUCKL and (previous == nullptr or not hasMethod))) {
 
         analysis = make_shared<LinearMecaStat>(model, labelAnalysis, analysis_id);
 
-- 
2.43.0


From d5db416bf84f74b9f418b33666464b51ebd43e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:39 +0000
Subject: [PATCH 082/153] fix: a buckling subcase without STATSUB uses the
 first static subcase

---
 Abstract/Analysis.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index 6dd8896..393bcf8 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -656,7 +656,14 @@ shared_ptr<Analysis> LinearBuckling::getStaticSubAnalysis() const noexcept {
     if (staticSubAnalysisRef != nullptr) {
         return model.find(*staticSubAnalysisRef);
     } else {
-        return previousAnalysis;
+        // default is the first static subcase
+        shared_ptr<Analysis> staticAnalysis = previousAnalysis;
+        for (auto analysis = previousAnalysis; analysis != nullptr; analysis = analysis->previousAnalysis) {
+            if (analysis->type == Analysis::Type::LINEAR_MECA_STAT) {
+                staticAnalysis = analysis;
+            }
+        }
+        return staticAnalysis;
     }
 }
 
-- 
2.43.0


From 77efcb251b31911e85681ebbc3f1f6eecab572a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:51 +0000
Subject: [PATCH 083/153] fix: a load set that a nonlinear subcase shares with
 the previous one remains constant instead of being applied twice

---
 Aster/AsterWriter.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 90834a9..fc832cf 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2657,16 +2657,28 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 		}
 		comm_file_ofs << "                    CARA_ELEM=CAEL," << endl;
 		comm_file_ofs << "                    EXCIT=(" << endl;
+		const auto& loadSets = nonLinAnalysis->getLoadSets();
+		vector<shared_ptr<LoadSet>> previousLoadSets;
 		if (nonLinAnalysis->previousAnalysis != nullptr) {
-			for (const auto& loadSet : nonLinAnalysis->previousAnalysis->getLoadSets()) {
+			previousLoadSets = nonLinAnalysis->previousAnalysis->getLoadSets();
+			for (const auto& loadSet : previousLoadSets) {
+				if (find(loadSets.begin(), loadSets.end(), loadSet) != loadSets.end()) {
+					continue; // the load set remains constant
+				}
 				for (const auto& asterName : asternamesByLoadSet[loadSet]) {
 					comm_file_ofs << "                           _F(CHARGE=" << asterName
 							<< ",FONC_MULT=IRAMP" << nonLinAnalysis->getId() << ")," << "# Original id:" << loadSet->getOriginalId() << endl;
 				}
 			}
 		}
-		for (const auto& loadSet : nonLinAnalysis->getLoadSets()) {
+		for (const auto& loadSet : loadSets) {
+			const bool constant = find(previousLoadSets.begin(), previousLoadSets.end(), loadSet) != previousLoadSets.end();
 			for (const auto& asterName : asternamesByLoadSet[loadSet]) {
+				if (constant) {
+					comm_file_ofs << "                           _F(CHARGE=" << asterName << "),"
+							<< "# Original id:" << loadSet->getOriginalId() << endl;
+					continue;
+				}
 				comm_file_ofs << "                           _F(CHARGE=" << asterName
 						<< ",FONC_MULT=RAMP" << nonLinAnalysis->getId() << ")," << "# Original id:" << loadSet->getOriginalId() << endl;
 			}
-- 
2.43.0


From 8d3633ba59d03797c2938a8c4a52de584d0f3973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:24 +0000
Subject: [PATCH 084/153] fix: every coefficient of SUBSEQ reaches the subcase
 it is given for

---
 Nastran/NastranParser.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 981972e..63e31f3 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -267,7 +267,14 @@ string NastranParser::parseSubcom(NastranTokenizer& tok, Model& model,
         }
         nextKeyword = tok.nextString(true,"");
         trim(nextKeyword);boost::to_upper(nextKeyword);
-        if ((!nextKeyword.empty()) && (nextKeyword != "BEGIN") && (nextKeyword != "SUBCASE")  && (nextKeyword != "SUBCOM")) {
+        if (nextKeyword == "SUBSEQ") {
+            string line = trim_copy(tok.currentRawDataLine());
+            while (line.back() == ',') {
+                tok.nextLine();
+                line += trim_copy(tok.currentRawDataLine());
+            }
+            context[nextKeyword] = trim_left_copy_if(line.substr(nextKeyword.size()), boost::is_any_of(" \t="));
+        } else if ((!nextKeyword.empty()) && (nextKeyword != "BEGIN") && (nextKeyword != "SUBCASE")  && (nextKeyword != "SUBCOM")) {
             string line ="";
             string sep="";
             while (tok.nextSymbolType == NastranTokenizer::SymbolType::SYMBOL_FIELD) {
@@ -1025,13 +1032,24 @@ void NastranParser::addCombinationAnalysis(NastranTokenizer& tok, Model& model,
 
     // A SUBSEQ command must follow this command.
     const auto& subseq = context.find("SUBSEQ");
-    vector<string> coefStrings(model.analyses.size());
-    boost::split(coefStrings,subseq->second,boost::is_any_of(","));
+    if (subseq == context.end()) {
+        handleParsingError("SUBSEQ not found for combination " + to_string(analysis_id), tok, model);
+    }
+    vector<string> coefStrings;
+    const string& coefficients = trim_copy_if(subseq->second, boost::is_any_of(" \t,"));
+    boost::split(coefStrings, coefficients, boost::is_any_of(" \t,"), boost::token_compress_on);
+    vector<shared_ptr<Analysis>> subcases; // the coefficients are those of the subcases, not of the other combinations
+    for (const auto& analysis : model.analyses) {
+        if (analysis->type != Analysis::Type::COMBINATION) {
+            subcases.push_back(analysis);
+        }
+    }
+    if (coefStrings.size() > subcases.size()) {
+        handleParsingError("SUBSEQ of combination " + to_string(analysis_id) + " has more coefficients than subcases", tok, model);
+    }
     for (size_t i = 0; i < coefStrings.size(); i++) {
-        auto it = model.analyses.begin();
-        advance(it, i);
-        const auto& analysis = *it;
-        double coef = stod(coefStrings[i++]);
+        const auto& analysis = subcases[i];
+        double coef = stod(coefStrings[i]);
         if (model.configuration.logLevel >= LogLevel::TRACE) {
             cout << "Assigning analysis " << *analysis << " to combination " << *combination << " with coefficient " << to_string(coef) << endl;
         }
-- 
2.43.0


From 6a2b6302574c70dff3ded148486110f77e8fb6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:54 +0000
Subject: [PATCH 085/153] fix: Nastran output writes combinations as SUBCOM
 with their SUBSEQ

---
 Nastran/NastranWriter.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 0b8c669..0f5edec 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -1077,6 +1077,30 @@ string NastranWriter::writeModel(Model& model,
         objective->markAsWritten();
     }
 	for (const auto& analysis : model.analyses) {
+		if (analysis->type == Analysis::Type::COMBINATION) {
+			const auto& combination = static_pointer_cast<Combination>(analysis);
+			out << "SUBCOM " << analysis->bestId() << endl;
+			out << "  SUBSEQ=";
+			int count = 0;
+			for (const auto& subcase : model.analyses) {
+				if (subcase == analysis) {
+					break; // the next ones cannot be combined
+				}
+				if (subcase->type == Analysis::Type::COMBINATION) {
+					continue;
+				}
+				const auto& coefEntry = combination->coefByAnalysis.find(subcase->getReference());
+				if (count > 0) {
+					out << (count % 5 == 0 ? ",\n    " : ",");
+				}
+				ostringstream coefficient;
+				coefficient << showpoint << (coefEntry != combination->coefByAnalysis.end() ? coefEntry->second : 0.0);
+				out << coefficient.str();
+				count++;
+			}
+			out << endl;
+			continue;
+		}
 		out << "SUBCASE " << analysis->bestId() << endl;
 		for (const auto& loadSet : analysis->getLoadSets()) {
 			string typeName = loadSet->stringByType.find(loadSet->type)->second;
-- 
2.43.0


From 1670fe9175c4769953088ee5878df00c606a6af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:05 +0000
Subject: [PATCH 086/153] fix: the scale factors of DLOAD no longer change the
 table of the other excitations

---
 Abstract/Loading.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 47a29db..9ac507d 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -862,7 +862,12 @@ DOFS DynamicExcitation::getDOFSForNode(const pos_t nodePosition) const {
 }
 
 void DynamicExcitation::scale(const double factor) {
-	model.find(functionTableB)->scale(factor);
+	// Several excitations may share the same table: only ours should be scaled
+	const auto& scaledTable = make_shared<FunctionTable>(*getFunctionTableB());
+	scaledTable->resetId();
+	scaledTable->scale(factor);
+	model.add(scaledTable);
+	functionTableB = scaledTable->getReference();
 }
 
 unique_ptr<Loading> DynamicExcitation::clone() const {
-- 
2.43.0


From 6bd809d2e5825c7311c7af2ae9628c63859dc56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:23 +0000
Subject: [PATCH 087/153] fix: TABLED1 given in descending order

---
 Nastran/NastranParser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 63e31f3..a41cd06 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3736,6 +3736,7 @@ void NastranParser::parseTABLED1(NastranTokenizer& tok, Model& model) {
     const auto& functionTable = make_shared<FunctionTable>(model, parameter, value, left,
             right, original_id);
 
+    vector<pair<double, double>> pairs;
     double x,y;
     string sField = "";
     while (sField != "ENDT") {
@@ -3768,7 +3769,14 @@ void NastranParser::parseTABLED1(NastranTokenizer& tok, Model& model) {
                 break;
             }
         }
-        functionTable->setXY(x, y);
+        pairs.push_back({x, y});
+    }
+    // Abscissas may be given in either ascending or descending order
+    if (not pairs.empty() and pairs.front().first > pairs.back().first) {
+        reverse(pairs.begin(), pairs.end());
+    }
+    for (const auto& xy : pairs) {
+        functionTable->setXY(xy.first, xy.second);
     }
 
     functionTable->setInputContext(tok.getInputContext());
-- 
2.43.0


From be6aba32511e5751ab1df513cc1381fa3a2674da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:23 +0000
Subject: [PATCH 088/153] fix: frequencies of FREQ given in any order or
 repeated

---
 Nastran/NastranParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index a41cd06..af562d0 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1776,6 +1776,9 @@ void NastranParser::parseFREQ(NastranTokenizer& tok, Model& model) {
     int sid = tok.nextInt();
     const auto& objectiveSet = model.getOrCreateObjectiveSet(sid, ObjectiveSet::Type::FREQ);
     list<double> frequencies = tok.nextDoubles();
+    // Frequencies may be given in any order and more than once
+    frequencies.sort();
+    frequencies.unique();
 
     const auto& frequencyValue = make_shared<ListValue<double>>(model, frequencies);
     frequencyValue->setInputContext(tok.getInputContext());
-- 
2.43.0


From 0e4a7e54dbd879780afa8d885e0e27dff11750ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:23 +0000
Subject: [PATCH 089/153] fix: SYSTUS critical damping ratio from structural
 damping and quality factor

---
 Systus/SystusDat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index a92d28f..40f22e4 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -60,11 +60,11 @@ void SystusWriter::writeModalDamping(std::ostream& out, const shared_ptr<ModalDa
             break;
         }
         case (ModalDamping::DampingType::G): {
-            firstDamping *= 2.0; // G = 2*CRIT
+            firstDamping /= 2.0; // G = 2*CRIT
             break;
         }
         case (ModalDamping::DampingType::Q): {
-            firstDamping = 1 / firstDamping; // Q = 1/CRIT
+            firstDamping = 1 / (2.0 * firstDamping); // Q = 1/(2*CRIT)
             break;
         }
         default: {
-- 
2.43.0


From 50135c01474190491166c1636d2a2e9412bc700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:52 +0000
Subject: [PATCH 090/153] fix: SYSTUS no longer warns about constant structural
 dampings

---
 Systus/SystusDat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index 40f22e4..e06f6aa 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -76,7 +76,7 @@ void SystusWriter::writeModalDamping(std::ostream& out, const shared_ptr<ModalDa
         // Systus 2017 allows to define damping for each modes, and not for frequency range. So we can only translate
         // constant dampings !
         for (auto it = modalDampingTable->getBeginValuesXY(); it != modalDampingTable->getEndValuesXY(); it++){
-            if (!is_equal(firstDamping, it->second)){
+            if (!is_equal(modalDampingTable->getBeginValuesXY()->second, it->second)){
                 handleWritingWarning("SYSTUS modal damping must be defined by mode number and not by frequency. Constant damping is assumed.", "Analysis file");
             }
         }
-- 
2.43.0


From 6757dc6f8817a3e270f10746cdb8abada5205375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:52 +0000
Subject: [PATCH 091/153] fix: SYSTUS modal response with the default method is
 given the amplitude of the excitation

---
 Systus/SystusDat.cpp    | 3 +--
 Systus/SystusWriter.cpp | 6 +++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index e06f6aa..3fec6ff 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -263,8 +263,7 @@ int SystusWriter::writeDynaModalAnalysis(ostream& out, const SystusModel& systus
     out << "# IF THERE IS NNN RIGID BODY MODES, ADD 'RIGID NNN' TO THE NEXT LINE."<<endl;
     out << "HARMONIC RESPONSE MODAL "<< nModes<< " FORCE "<< nbLoadcases <<endl;
     if (not tableByLoadcase.empty()){
-        out <<"FUNCTION "<< tableByLoadcase[1] <<endl;
-        cout <<"FUNCTION "<< tableByLoadcase[0] <<endl;
+        out <<"FUNCTION "<< tableByLoadcase.begin()->second <<endl;
     }
     if (linearDynaModalFreq->hasModalDamping()) {
         writeModalDamping(out, linearDynaModalFreq->getModalDamping());
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 7e6e6aa..8344ee3 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1939,7 +1939,7 @@ void SystusWriter::fillTables(const SystusModel& systusModel, const int idSubcas
 
 
     // Build tables for frequency-dependent amplitude on Modal Dynamic Analysis
-    if (systusModel.configuration.systusDynamicMethod=="modal") {
+    if (systusModel.configuration.systusDynamicMethod!="direct") {
         const auto& analysisId = systusSubcases[idSubcase];
 
         for (unsigned i = 0 ; i < analysisId.size(); i++) {
@@ -1972,6 +1972,10 @@ void SystusWriter::fillTables(const SystusModel& systusModel, const int idSubcas
                         }
 
                         const auto& aTable = dE->getFunctionTableB();
+                        if (tableByLoadcase.find(idLoadCase) != tableByLoadcase.end()) {
+                            handleWritingWarning("Only one amplitude of dynamic excitation by loadcase. Dismissing amplitude of load "+ to_string(dE->bestId()), "Table");
+                            break;
+                        }
                         int tId= static_cast<int>(tables.size())+1;
                         SystusTable aSystusTable(tId);
                         //TODO: Test the units of the table ?
-- 
2.43.0


From 1160e0f34a9d803113c578269b4eb7e16d642e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:52 +0000
Subject: [PATCH 092/153] fix: SYSTUS direct response is given the amplitude of
 the excitation

---
 Systus/SystusWriter.cpp | 8 ++++----
 Systus/SystusWriter.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 8344ee3..18eceb3 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1095,11 +1095,11 @@ void SystusWriter::fillLoads(const SystusModel& systusModel, const int idSubcase
     }
 }
 
-void SystusWriter::writeNodalForceVector(const SystusModel& systusModel, const shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId) {
+void SystusWriter::writeNodalForceVector(const SystusModel& systusModel, const shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId, const double amplitude) {
 
     for(const pos_t nodePosition : nodalForce->nodePositions()) {
-        const auto& force = nodalForce->getForceInGlobalCS(nodePosition);
-        const auto& moment = nodalForce->getMomentInGlobalCS(nodePosition);
+        const auto& force = nodalForce->getForceInGlobalCS(nodePosition).scaled(amplitude);
+        const auto& moment = nodalForce->getMomentInGlobalCS(nodePosition).scaled(amplitude);
         const int nodeId = systusModel.model.mesh.findNodeId(nodePosition);
 
         vector<double> vec;
@@ -1408,7 +1408,7 @@ void SystusWriter::fillLoadingsVectors(const SystusModel& systusModel, const int
                         }
 
                         const auto& nodalForce = static_pointer_cast<NodalForce>(dLoading);
-                        writeNodalForceVector(systusModel, nodalForce, idLoadCase, vectorId);
+                        writeNodalForceVector(systusModel, nodalForce, idLoadCase, vectorId, amplitude);
                         nodalForce->markAsWritten();
                     }
                     dEL->markAsWritten();
diff --git a/Systus/SystusWriter.h b/Systus/SystusWriter.h
index 85c516a..fdd011a 100644
--- a/Systus/SystusWriter.h
+++ b/Systus/SystusWriter.h
@@ -420,7 +420,7 @@ private:
     void writeNodalDisplacementAssertion(Assertion& assertion, std::ostream& out);
     void writeNodalComplexDisplacementAssertion(Assertion& assertion, std::ostream& out);
     void writeFrequencyAssertion(Assertion& assertion, std::ostream& out);
-    void writeNodalForceVector(const SystusModel& systusModel, const std::shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId);
+    void writeNodalForceVector(const SystusModel& systusModel, const std::shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId, const double amplitude = 1.0);
 
     std::string toString() const override {
         return "SystusWriter";
-- 
2.43.0


From a04d50469d29d00b89190e2c96201e05f18f8f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 093/153] fix: unsupported normalisation of modes falls back on
 MASS as announced

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index af562d0..a78f7da 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1606,7 +1606,7 @@ void NastranParser::parseEIGB(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     int g = tok.nextInt(true);
     if (g!=Globals::UNAVAILABLE_INT){
@@ -1655,7 +1655,7 @@ void NastranParser::parseEIGR(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     int g = tok.nextInt(true);
     if (g!=Globals::UNAVAILABLE_INT){
@@ -1711,7 +1711,7 @@ void NastranParser::parseEIGRL(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     const auto& bandRange = make_shared<BandRange>(model, lower, nd, upper);
     //bandRange.setParaX(Function::ParaName::FREQ);
-- 
2.43.0


From 443d169d92fe15e41e26e263cca12626752c63b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 094/153] fix: upper bound of the modes of EIGRL with a number
 of modes

---
 Aster/AsterWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index fc832cf..9fe95e0 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2881,6 +2881,13 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             if (asterModel->model.contains(ModelParameter::UPPER_CUTOFF_FREQUENCY)) {
                 highFreq = stod(asterModel->model.getParameter(ModelParameter::UPPER_CUTOFF_FREQUENCY));
             }
+            const auto& frequencySearch = linearModal->getFrequencySearch();
+            if (frequencySearch->frequencyType == FrequencySearch::FrequencyType::BAND) {
+                const auto& band = static_pointer_cast<BandRange>(frequencySearch->getValue());
+                if (not is_equal(band->end, Globals::UNAVAILABLE_DOUBLE)) {
+                    highFreq = min(highFreq, band->end);
+                }
+            }
             comm_file_ofs << modalResuName << "=EXTR_MODE(FILTRE_MODE=_F(MODE=U" << modalResuName << ", FREQ_MIN=" << lowFreq << ", FREQ_MAX=" << highFreq << "),)" << endl;
             comm_file_ofs << "I" << modalResuName << "=RECU_TABLE(CO=" << modalResuName << ",NOM_PARA = ('FREQ','MASS_GENE','RIGI_GENE','AMOR_GENE','FACT_PARTICI_DX','FACT_PARTICI_DY','FACT_PARTICI_DZ','MASS_EFFE_DX','MASS_EFFE_DY','MASS_EFFE_DZ','MASS_EFFE_UN_DX','MASS_EFFE_UN_DY','MASS_EFFE_UN_DZ',))" << endl;
             comm_file_ofs << "IMPR_TABLE(TABLE=I" << modalResuName << ")" << endl << endl;
-- 
2.43.0


From 8ac3be1646a1b8db43bfd719d3d0de51b6760d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:40 +0000
Subject: [PATCH 095/153] fix: ASTER warns about delays and phase tables which
 it dismisses

---
 Aster/AsterWriter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 9fe95e0..c26b4cb 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2822,6 +2822,12 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 					comm_file_ofs << "                                    FONC_MULT = FCT" << setfill('0')
 							<< setw(5) << dynamicExcitation->getFunctionTableB()->getId() << ","
 							<< endl;
+					if (not is_zero(dynamicExcitation->getDynaDelay()->get())) {
+						handleWritingWarning("Delay of dynamic excitation not supported and dismissed: " + to_str(*dynamicExcitation));
+					}
+					if (dynamicExcitation->getFunctionTableP() != nullptr) {
+						handleWritingWarning("Phase table of dynamic excitation not supported and dismissed: " + to_str(*dynamicExcitation));
+					}
 					comm_file_ofs << "                                    PHAS_DEG = "
 							<< dynamicExcitation->getDynaPhase()->get() << ",)," << endl;
                     dynamicExcitation->markAsWritten();
@@ -3172,6 +3178,12 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 					comm_file_ofs << "                                    FONC_MULT = FCT" << setfill('0')
 							<< setw(5) << dynamicExcitation->getFunctionTableB()->getId() << ","
 							<< endl;
+					if (not is_zero(dynamicExcitation->getDynaDelay()->get())) {
+						handleWritingWarning("Delay of dynamic excitation not supported and dismissed: " + to_str(*dynamicExcitation));
+					}
+					if (dynamicExcitation->getFunctionTableP() != nullptr) {
+						handleWritingWarning("Phase table of dynamic excitation not supported and dismissed: " + to_str(*dynamicExcitation));
+					}
 					comm_file_ofs << "                                    PHAS_DEG = "
 							<< dynamicExcitation->getDynaPhase()->get() << ",)," << endl;
                     dynamicExcitation->markAsWritten();
-- 
2.43.0


From c8f0b3a5826c3a98352821d7a10cfabe6e8793e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:40 +0000
Subject: [PATCH 096/153] fix: warn about several FREQi with the same set, of
 which only one is used

---
 Nastran/NastranParser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index a78f7da..72c81af 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1775,6 +1775,9 @@ void NastranParser::parseFORCE2(NastranTokenizer& tok, Model& model) {
 void NastranParser::parseFREQ(NastranTokenizer& tok, Model& model) {
     int sid = tok.nextInt();
     const auto& objectiveSet = model.getOrCreateObjectiveSet(sid, ObjectiveSet::Type::FREQ);
+    if (not objectiveSet->getObjectives().empty()) {
+        handleParsingWarning("Several excitation frequencies in the same set not supported, only the first ones are used.", tok, model);
+    }
     list<double> frequencies = tok.nextDoubles();
     // Frequencies may be given in any order and more than once
     frequencies.sort();
@@ -1791,6 +1794,9 @@ void NastranParser::parseFREQ(NastranTokenizer& tok, Model& model) {
 void NastranParser::parseFREQ1(NastranTokenizer& tok, Model& model) {
     int sid = tok.nextInt();
     const auto& objectiveSet = model.getOrCreateObjectiveSet(sid, ObjectiveSet::Type::FREQ);
+    if (not objectiveSet->getObjectives().empty()) {
+        handleParsingWarning("Several excitation frequencies in the same set not supported, only the first ones are used.", tok, model);
+    }
     double start = tok.nextDouble();
     double step = tok.nextDouble();
     int count = tok.nextInt(true, 1);
@@ -1807,6 +1813,9 @@ void NastranParser::parseFREQ1(NastranTokenizer& tok, Model& model) {
 void NastranParser::parseFREQ3(NastranTokenizer& tok, Model& model) {
     int sid = tok.nextInt();
     const auto& objectiveSet = model.getOrCreateObjectiveSet(sid, ObjectiveSet::Type::FREQ);
+    if (not objectiveSet->getObjectives().empty()) {
+        handleParsingWarning("Several excitation frequencies in the same set not supported, only the first ones are used.", tok, model);
+    }
     double startf = tok.nextDouble();
     double endf = tok.nextDouble();
     string type = tok.nextString(true, "LINEAR");
@@ -1829,6 +1838,9 @@ void NastranParser::parseFREQ3(NastranTokenizer& tok, Model& model) {
 void NastranParser::parseFREQ4(NastranTokenizer& tok, Model& model) {
     int sid = tok.nextInt();
     const auto& objectiveSet = model.getOrCreateObjectiveSet(sid, ObjectiveSet::Type::FREQ);
+    if (not objectiveSet->getObjectives().empty()) {
+        handleParsingWarning("Several excitation frequencies in the same set not supported, only the first ones are used.", tok, model);
+    }
     double f1 = tok.nextDouble();
     double f2 = tok.nextDouble();
     double spread = tok.nextDouble();
-- 
2.43.0


From a658c93c4e3f80e1435cc0a99b842e556579240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:40 +0000
Subject: [PATCH 097/153] fix: SYSTUS warns about logarithmic amplitudes,
 written as linear

---
 Systus/SystusWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 18eceb3..11b4dda 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1976,6 +1976,9 @@ void SystusWriter::fillTables(const SystusModel& systusModel, const int idSubcas
                             handleWritingWarning("Only one amplitude of dynamic excitation by loadcase. Dismissing amplitude of load "+ to_string(dE->bestId()), "Table");
                             break;
                         }
+                        if (aTable->parameter != FunctionTable::Interpolation::LINEAR or aTable->value != FunctionTable::Interpolation::LINEAR) {
+                            handleWritingWarning("Only linear interpolations are supported for the amplitude of load "+ to_string(dE->bestId()), "Table");
+                        }
                         int tId= static_cast<int>(tables.size())+1;
                         SystusTable aSystusTable(tId);
                         //TODO: Test the units of the table ?
-- 
2.43.0


From 2dd48e0b0788a6bee813a4448cfd33ad18b53f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:40 +0000
Subject: [PATCH 098/153] fix: ASTER warns about the lower bound of modes whose
 number is given

---
 Aster/AsterWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index c26b4cb..6052449 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2893,6 +2893,9 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
                 if (not is_equal(band->end, Globals::UNAVAILABLE_DOUBLE)) {
                     highFreq = min(highFreq, band->end);
                 }
+                if (not is_equal(band->maxsearch, Globals::UNAVAILABLE_INT) and not is_equal(band->start, Globals::UNAVAILABLE_DOUBLE) and band->start > 0) {
+                    handleWritingWarning("Lower bound of the modes is dismissed when their number is given: " + to_str(*frequencySearch));
+                }
             }
             comm_file_ofs << modalResuName << "=EXTR_MODE(FILTRE_MODE=_F(MODE=U" << modalResuName << ", FREQ_MIN=" << lowFreq << ", FREQ_MAX=" << highFreq << "),)" << endl;
             comm_file_ofs << "I" << modalResuName << "=RECU_TABLE(CO=" << modalResuName << ",NOM_PARA = ('FREQ','MASS_GENE','RIGI_GENE','AMOR_GENE','FACT_PARTICI_DX','FACT_PARTICI_DY','FACT_PARTICI_DZ','MASS_EFFE_DX','MASS_EFFE_DY','MASS_EFFE_DZ','MASS_EFFE_UN_DX','MASS_EFFE_UN_DY','MASS_EFFE_UN_DZ',))" << endl;
-- 
2.43.0


From af98bc2f05544d77cfcf74e089540702e7ee7b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:41 +0000
Subject: [PATCH 099/153] fix: RLOADi finds its own LSEQ, load or DAREA
 wherever the cards are

---
 Abstract/Loading.cpp      |  4 +++
 Abstract/Loading.h        |  1 +
 Nastran/NastranParser.cpp | 54 +++++++++++++++++++--------------------
 Nastran/NastranParser.h   |  3 +++
 4 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 9ac507d..adf01c1 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -844,6 +844,10 @@ shared_ptr<LoadSet> DynamicExcitation::getLoadSet() const {
     return model.find(loadSet);
 }
 
+void DynamicExcitation::setLoadSet(const Reference<LoadSet>& reference) {
+    loadSet = reference;
+}
+
 shared_ptr<FunctionPlaceHolder> DynamicExcitation::getFunctionTableBPlaceHolder() const {
     return make_unique<FunctionPlaceHolder>(model, functionTableB.type, functionTableB.original_id, Function::ParaName::FREQ);
 }
diff --git a/Abstract/Loading.h b/Abstract/Loading.h
index 7ef2706..2da2da9 100644
--- a/Abstract/Loading.h
+++ b/Abstract/Loading.h
@@ -476,6 +476,7 @@ public:
     std::shared_ptr<FunctionTable> getFunctionTableB() const;
     std::shared_ptr<FunctionTable> getFunctionTableP() const;
     std::shared_ptr<LoadSet> getLoadSet() const;
+    void setLoadSet(const Reference<LoadSet>&);
     std::shared_ptr<FunctionPlaceHolder> getFunctionTableBPlaceHolder() const;
     std::shared_ptr<FunctionPlaceHolder> getFunctionTablePPlaceHolder() const;
     std::set<pos_t> nodePositions() const override;
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 72c81af..a788a26 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -559,6 +559,23 @@ NastranParser::parseElementFPtr NastranParser::findCmdParser(string keyword) con
     }
 }
 
+void NastranParser::resolveExcitations(Model& model) {
+    for (const auto& it : excitationsAndExciteIds) {
+        const int exciteId = it.second;
+        const auto& lseq = lseqLoadIdByExciteId.find(exciteId);
+        if (lseq != lseqLoadIdByExciteId.end() and model.find(Reference<LoadSet>{LoadSet::Type::EXCITEID, exciteId}) == nullptr) {
+            // If there is a LOADSET request in the Case Control, then the model will reference static and thermal load set entries specified by the LID or TID field in the selected LSEQ entries corresponding to the EXCITEID.
+            it.first->setLoadSet(Reference<LoadSet>{LoadSet::Type::LOAD, lseq->second});
+        } else if (model.find(Reference<LoadSet>{LoadSet::Type::LOAD, exciteId}) != nullptr) {
+            it.first->setLoadSet(Reference<LoadSet>{LoadSet::Type::LOAD, exciteId});
+        } else {
+            // If there is no LOADSET request in the Case Control, then EXCITEID may directly reference DAREA, static, and thermal load set entries.
+            it.first->setLoadSet(Reference<LoadSet>{LoadSet::Type::EXCITEID, exciteId});
+        }
+    }
+    excitationsAndExciteIds.clear();
+}
+
 void NastranParser::parseBULKSection(NastranTokenizer &tok, Model& model) {
 
     while (tok.nextSymbolType == NastranTokenizer::SymbolType::SYMBOL_KEYWORD) {
@@ -631,6 +648,7 @@ unique_ptr<Model> NastranParser::parse(const ConfigurationParameters& configurat
     }
     tok.bulkSection();
     parseBULKSection(tok, *model);
+    resolveExcitations(*model);
     istream.close();
 
     if (model->configuration.logLevel >= LogLevel::DEBUG) {
@@ -1903,7 +1921,7 @@ void NastranParser::parseLSEQ(NastranTokenizer& tok, Model& model) {
     int set_id = tok.nextInt();
     // LSEQ will not be used unless selected in the Case Control Section with the LOADSET command.
     shared_ptr<LoadSet> loadSetMaster = model.getOrCreateLoadSet(set_id, LoadSet::Type::LOADSET);
-    int darea_id = tok.nextInt(); UNUSEDV(darea_id);
+    int darea_id = tok.nextInt();
     // LD : not sure about this interpretation
 //    Reference<LoadSet> dareaReference(LoadSet::Type::LOAD, darea_id);
 //    loadSetMaster->embedded_loadsets.push_back(
@@ -1911,7 +1929,7 @@ void NastranParser::parseLSEQ(NastranTokenizer& tok, Model& model) {
     int loadSet_id = tok.nextInt();
     Reference<LoadSet> loadSetReference(LoadSet::Type::LOAD, loadSet_id);
     loadSetMaster->embedded_loadsets.push_back({loadSetReference, 1.0});
-
+    lseqLoadIdByExciteId[darea_id] = loadSet_id;
 }
 
 void NastranParser::parseLOAD(NastranTokenizer& tok, Model& model) {
@@ -3361,8 +3379,8 @@ void NastranParser::parseRLOAD1(NastranTokenizer& tok, Model& model) {
     Reference<NamedValue> functionTableC_ref(Value::Type::FUNCTION_TABLE, functionTableC_original_id);
     Reference<NamedValue> functionTableD_ref(Value::Type::FUNCTION_TABLE, functionTableD_original_id);
 
-    // If needed, creates a LoadSet EXCITEID for the DynamicExcitation
-    shared_ptr<LoadSet> darea = model.getOrCreateLoadSet(darea_set_id, LoadSet::Type::EXCITEID);
+    // Completed once all the cards are parsed
+    Reference<LoadSet> excitRef{LoadSet::Type::EXCITEID, darea_set_id};
 
     // if loadSet DLOAD does not exist (was not declared in the bulk), loadset_id become the original id of DynamicExcitation
     // else DynamicExcitation is created without original_id and is mapped to this loadSet
@@ -3374,10 +3392,11 @@ void NastranParser::parseRLOAD1(NastranTokenizer& tok, Model& model) {
         original_id = loadset_id;
 
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::DLOAD);
-    const auto& dynamicExcitation = make_shared<DynamicExcitation>(model, loadSet, dynaDelay_ref, dynaPhase_ref, functionTableC_ref, functionTableD_ref, darea->getReference(),
+    const auto& dynamicExcitation = make_shared<DynamicExcitation>(model, loadSet, dynaDelay_ref, dynaPhase_ref, functionTableC_ref, functionTableD_ref, excitRef,
             excitType, original_id);
     dynamicExcitation->setInputContext(tok.getInputContext());
     model.add(dynamicExcitation);
+    excitationsAndExciteIds.push_back({dynamicExcitation, darea_set_id});
 
     // PlaceHolder to complete the Value attribute paraX of FunctionTable
     dynamicExcitation->getFunctionTableBPlaceHolder()->setInputContext(tok.getInputContext());
@@ -3444,30 +3463,8 @@ void NastranParser::parseRLOAD2(NastranTokenizer& tok, Model& model) {
     //TODO: should not create a ref when the P value is 0
     Reference<NamedValue> functionTableP_ref(Value::Type::FUNCTION_TABLE, functionTableP_original_id);
 
-
-
+    // Completed once all the cards are parsed
     Reference<LoadSet> excitRef{LoadSet::Type::EXCITEID, darea_set_id};
-    if (model.loadSets.contains(LoadSet::Type::LOADSET) and model.find(excitRef) == nullptr) {
-        // If there is a LOADSET request in the Case Control, then the model will reference static and thermal load set entries specified by the LID or TID field in the selected LSEQ entries corresponding to the EXCITEID.
-        auto loadsets = model.loadSets.filter(LoadSet::Type::LOADSET); // Hack should look for the indicated LOADSEQ context parameter
-        const auto& lseq = loadsets[0];
-//        const Reference<LoadSet>& dareaSetId = lseq->embedded_loadsets[0].first; // What about .second ?
-//        handleParsingWarning("Hack in resolving RLOAD2->LSEQ->(darea id)->LOAD : " + to_string(dareaSetId.original_id) + " versus " + to_string(darea_set_id),
-//                tok, model); // Hack, should seek the corresponding darea
-        Reference<LoadSet> loadId = lseq->embedded_loadsets[0].first; // What about .second ?
-        excitRef = loadId; // HACK?
-    } else if (model.find(Reference<LoadSet>{LoadSet::Type::LOAD, darea_set_id}) != nullptr) {
-        excitRef = Reference<LoadSet>{LoadSet::Type::LOAD, darea_set_id};
-    } else {
-        // If there is no LOADSET request in the Case Control, then EXCITEID may directly reference DAREA, static, and thermal load set entries.
-        //handleParsingWarning("RLOAD2 directly referencing EXCITEID not yet handled, seems to be working?", tok, model);
-    }
-    // If needed, creates a LoadSet EXCITEID for the DynamicExcitation
-//    LoadSet darea(model, LoadSet::Type::EXCITEID, darea_set_id);
-//    Reference<LoadSet> darea_ref(darea);
-//    if (!model.find(darea_ref)){
-//       model.add(darea);
-//    }
 
     // if loadSet DLOAD does not exist (was not declared in the bulk), loadset_id become the original id of DynamicExcitation
     // else DynamicExcitation is created without original_id and is mapped to this loadSet
@@ -3487,6 +3484,7 @@ void NastranParser::parseRLOAD2(NastranTokenizer& tok, Model& model) {
             excitType, original_id);
     dynamicExcitation->setInputContext(tok.getInputContext());
     model.add(dynamicExcitation);
+    excitationsAndExciteIds.push_back({dynamicExcitation, darea_set_id});
 
     // PlaceHolder to complete the Value attribute paraX of FunctionTable
     dynamicExcitation->getFunctionTableBPlaceHolder()->setInputContext(tok.getInputContext());
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 1e490e1..29349e4 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -71,6 +71,8 @@ private:
     GrdSet grdSet;
 
     std::unordered_map<std::string, Reference<ElementSet>> directMatrixByName;
+    std::map<int, int> lseqLoadIdByExciteId; /**< static loads given by LSEQ for each EXCITEID */
+    std::vector<std::pair<std::shared_ptr<DynamicExcitation>, int>> excitationsAndExciteIds; /**< known once all the cards are parsed */
     static const std::unordered_map<std::string, NastranAnalysis> ANALYSIS_BY_LABEL;
     static const std::unordered_map<std::string, parseElementFPtr> PARSE_FUNCTION_BY_KEYWORD;
     static const std::unordered_map<std::string, parseElementFPtr> PARSEPARAM_FUNCTION_BY_KEYWORD;
@@ -83,6 +85,7 @@ private:
 
     fs::path findModelFile(const std::string& filename);
     void parseBULKSection(NastranTokenizer &tok, Model& model1);
+    void resolveExcitations(Model& model);
 
     void parseExecutiveSection(NastranTokenizer& tok, Model& model, std::map<std::string, std::string>& context);
     static void putIntoContext(std::map<std::string, std::string>& context, const std::string& keyword, const std::string& value);
-- 
2.43.0


From fb74381a5b1fa0da3c58ca59c02ec571daabc6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:06 +0000
Subject: [PATCH 100/153] fix: coordinate systems defined in another one follow
 it, whatever its kind and the order of the cards

---
 Abstract/CoordinateSystem.cpp | 43 +++++++++++++++++++++++++++++++++++
 Abstract/CoordinateSystem.h   | 16 ++++++++++++-
 Abstract/Mesh.cpp             |  1 +
 Nastran/NastranParser.cpp     |  3 +++
 4 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 2fb85f6..d59badd 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -90,6 +90,34 @@ VectorialValue CoordinateSystem::getEulerAnglesIntrinsicZYX(const CoordinateSyst
 }
 
 
+void CoordinateSystem::setDefinitionPoints(const VectorialValue& pointO, const VectorialValue& pointZ, const VectorialValue& pointXZ) {
+    definitionPoints = {pointO, pointZ, pointXZ};
+}
+
+void CoordinateSystem::resolveReference() {
+    if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
+        return;
+    }
+    const auto& reference = mesh.findCoordinateSystem(rcs);
+    if (reference == nullptr) {
+        return;
+    }
+    if (building) {
+        throw logic_error("Circular definition of coordinate system: " + to_str(*this));
+    }
+    building = true;
+    reference->build();
+    building = false;
+    if (definitionPoints.empty()) {
+        setDefinitionPoints(origin, origin + ez, origin + ex);
+    }
+    origin = reference->positionToGlobal(definitionPoints[0]);
+    ez = (reference->positionToGlobal(definitionPoints[1]) - origin).normalized();
+    ex = (reference->positionToGlobal(definitionPoints[2]) - origin).orthonormalized(ez);
+    ey = ez.cross(ex);
+    rcs = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM;
+}
+
 CartesianCoordinateSystem::CartesianCoordinateSystem(const Mesh& mesh,
         const VectorialValue& origin, const VectorialValue& ex, const VectorialValue& ey, const Reference<CoordinateSystem> rcs,
         int _original_id) :
@@ -151,7 +179,12 @@ unique_ptr<CoordinateSystem> CartesianCoordinateSystem::clone() const {
 
 void CartesianCoordinateSystem::build(){
 
+    resolveReference();
     if (isVirtual){
+        if (building) {
+            throw logic_error("Circular definition of coordinate system: " + to_str(*this));
+        }
+        building = true;
         int nO  = this->nodesId[0];
         int nZ  = this->nodesId[1];
         int nXZ = this->nodesId[2];
@@ -168,6 +201,7 @@ void CartesianCoordinateSystem::build(){
         this->ex = v.orthonormalized(this->ez);
         this->ey = this->ez.cross(this->ex);
         isVirtual=false;
+        building = false;
     }
 
     boost::numeric::ublas::matrix<double> m(3, 3);
@@ -186,6 +220,15 @@ CylindricalCoordinateSystem::CylindricalCoordinateSystem(const Mesh& mesh,
                 this->ey) {
 }
 
+void CylindricalCoordinateSystem::build() {
+    if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
+        return;
+    }
+    resolveReference();
+    ur = ex;
+    utheta = ey;
+}
+
 // TODO : LD What's this ? Should this method be renamed moveOrigin ?
 void CylindricalCoordinateSystem::updateLocalBase(const VectorialValue& point) {
     VectorialValue localOrigin = point - origin;
diff --git a/Abstract/CoordinateSystem.h b/Abstract/CoordinateSystem.h
index 6105b3f..f8dabc8 100644
--- a/Abstract/CoordinateSystem.h
+++ b/Abstract/CoordinateSystem.h
@@ -61,10 +61,12 @@ protected:
     VectorialValue origin; /** local origin */
     VectorialValue ex; /** local X axis */
     VectorialValue ey; /** local Y axis */
-    const Reference<CoordinateSystem> rcs; /** Identification of a coordinate system that is defined independently from this coordinate system. */
+    Reference<CoordinateSystem> rcs; /** Identification of a coordinate system that is defined independently from this coordinate system. */
     VectorialValue ez; /** internally computed as cross product of ex and ey */
     bool isVirtual = false;
+    bool building = false;
     std::vector<int> nodesId;
+    std::vector<VectorialValue> definitionPoints; /** origin, point of the z axis and point of the xz plane, as given in rcs */
     boost::numeric::ublas::matrix<double> inverseMatrix;
 
 public:
@@ -79,10 +81,21 @@ public:
     protected:
     CoordinateSystem(const Mesh&, Type, CoordinateType, const VectorialValue origin, const VectorialValue ex,
             const VectorialValue ey, const Reference<CoordinateSystem> rcs = GLOBAL_COORDINATE_SYSTEM, int original_id = NO_ORIGINAL_ID);
+    /**
+     * Express this coordinate system in the global one, its reference being built first.
+     */
+    void resolveReference();
     public:
+    /**
+     * Points which define this coordinate system, in the components of its reference
+     * (which are not the cartesian ones for a cylindrical or a spherical reference):
+     * the origin, a point of the z axis and a point of the xz plane.
+     */
+    void setDefinitionPoints(const VectorialValue& pointO, const VectorialValue& pointZ, const VectorialValue& pointXZ);
     virtual void updateLocalBase(const VectorialValue&) {
     }
     virtual void build(){
+        resolveReference();
     }
     /**
      *  Translate a position (x,y,z) expressed in this local Coordinate system,
@@ -172,6 +185,7 @@ public:
     CylindricalCoordinateSystem(const Mesh&, const VectorialValue origin, const VectorialValue ex,
             const VectorialValue ey, const Reference<CoordinateSystem> rcs = GLOBAL_COORDINATE_SYSTEM, int original_id = NO_ORIGINAL_ID);
 
+    void build() override;
     /**
      *  Compute the local cylindrical base (ur, utheta, uz) corresponding to point.
      *   Point must be expressed in the reference cartesian coordinate system.
diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index 07de406..895620c 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -238,6 +238,7 @@ Node Mesh::findNode(const pos_t nodePosition) const {
           return Node(nodeData.id, nodeData.x, nodeData.y, nodeData.z, nodePosition, nodeData.dofs,
               nodeData.x, nodeData.y, nodeData.z, nodeData.cpPos, nodeData.cdPos);
       }
+      coordSystem->build();
       const VectorialValue& gCoord = coordSystem->positionToGlobal(VectorialValue(nodeData.x,nodeData.y,nodeData.z));
       return Node(nodeData.id, nodeData.x, nodeData.y, nodeData.z, nodePosition, nodeData.dofs,
           gCoord.x(), gCoord.y(), gCoord.z(), nodeData.cpPos, nodeData.cdPos);
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index a788a26..f2674b8 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1343,6 +1343,7 @@ void NastranParser::parseCORD2C(NastranTokenizer& tok, Model& model) {
     VectorialValue ey = ez.cross(ex);
 
     CylindricalCoordinateSystem coordinateSystem(model.mesh, vect[0], ex, ey, Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, rid), cid);
+    coordinateSystem.setDefinitionPoints(vect[0], vect[1], vect[2]);
     model.mesh.add(coordinateSystem);
 }
 
@@ -1362,6 +1363,7 @@ void NastranParser::parseCORD2R(NastranTokenizer& tok, Model& model) {
     VectorialValue ey = ez.cross(ex);
 
     CartesianCoordinateSystem coordinateSystem(model.mesh, vect[0], ex, ey, Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, rid), cid);
+    coordinateSystem.setDefinitionPoints(vect[0], vect[1], vect[2]);
     model.mesh.add(coordinateSystem);
 }
 
@@ -1383,6 +1385,7 @@ void NastranParser::parseCORD2S(NastranTokenizer& tok, Model& model) {
     VectorialValue ey = ez.cross(ex);
 
     SphericalCoordinateSystem coordinateSystem(model.mesh, vect[0], ex, ey, Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, rid), cid);
+    coordinateSystem.setDefinitionPoints(vect[0], vect[1], vect[2]);
     model.mesh.add(coordinateSystem);
 }
 
-- 
2.43.0


From b2d11a5361a9e3a001e4debe5eb138c51c3566c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0000
Subject: [PATCH 101/153] fix: GRDSET also completes the grids before it, by
 the numbers of its systems

---
 Abstract/CoordinateSystem.cpp      | 11 ++++---
 Nastran/NastranParser.h            | 15 ++++++---
 Nastran/NastranParser_geometry.cpp | 49 +++++++++++++++++++-----------
 3 files changed, 50 insertions(+), 25 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index d59badd..df44ebe 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -231,11 +231,14 @@ void CylindricalCoordinateSystem::build() {
 
 // TODO : LD What's this ? Should this method be renamed moveOrigin ?
 void CylindricalCoordinateSystem::updateLocalBase(const VectorialValue& point) {
-    VectorialValue localOrigin = point - origin;
-    if (!localOrigin.iszero()) {
-        utheta = ez.cross(point - origin).normalized();
-        ur = utheta.cross(ez);
+    const VectorialValue& localPoint = point - origin;
+    const VectorialValue& radial = localPoint - localPoint.dot(ez) * ez;
+    if (radial.iszero()) {
+        ur = ex; // on the axis
+    } else {
+        ur = radial.normalized();
     }
+    utheta = ez.cross(ur);
 }
 
 VectorialValue CylindricalCoordinateSystem::positionToGlobal(const VectorialValue& local) const{
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 29349e4..764136f 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -58,17 +58,24 @@ protected:
 private:
     class GrdSet {
     public:
-        GrdSet(const pos_t cp = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
-                const pos_t cd = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
+        GrdSet(const int cp = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
+                const int cd = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID,
                 const int ps = 0, const int seid = 0) :
                     cp(cp), cd(cd), ps(ps), seid(seid) {
         }
-        pos_t cp;
-        pos_t cd;
+        int cp;
+        int cd;
         int ps;
         int seid;
     };
     GrdSet grdSet;
+    struct Grid {
+        int id;
+        double x1, x2, x3;
+        int cp, cd, ps; /**< Globals::UNAVAILABLE_INT when blank */
+    };
+    std::vector<Grid> gridsWithBlanks; /**< grids to be completed if a GRDSET follows */
+    void addGrid(const Grid&, Model&);
 
     std::unordered_map<std::string, Reference<ElementSet>> directMatrixByName;
     std::map<int, int> lseqLoadIdByExciteId; /**< static loads given by LSEQ for each EXCITEID */
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 555ca67..48f78bf 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -58,22 +58,42 @@ const unordered_map<CellType::Code, vector<int>, EnumClassHash> NastranParser::n
 void NastranParser::parseGRDSET(NastranTokenizer& tok, Model& model) {
     tok.skip(1);
     int cp = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-    if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-        grdSet.cp = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cp));
-        }
+    grdSet.cp = cp;
     tok.skip(3);
     int cd = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-    if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-        grdSet.cd = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cd));
-        }
+    grdSet.cd = cd;
     grdSet.ps = tok.nextInt(true, 0);
     grdSet.seid = tok.nextInt(true, 0);
 
+    // the defaults also apply to the grids which come before
+    for (const auto& grid : gridsWithBlanks) {
+        addGrid(grid, model);
+    }
+    gridsWithBlanks.clear();
 }
 
 void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
-    int id = tok.nextInt();
-    int cp = tok.nextInt(true, static_cast<int>(grdSet.cp));
+    Grid grid;
+    grid.id = tok.nextInt();
+    grid.cp = tok.nextInt(true);
+    grid.x1 = tok.nextDouble(true, 0.0);
+    grid.x2 = tok.nextDouble(true, 0.0);
+    grid.x3 = tok.nextDouble(true, 0.0);
+    /* Coordinate System for Displacement */
+    grid.cd = tok.nextInt(true);
+    grid.ps = tok.nextInt(true);
+    addGrid(grid, model);
+    if (grid.cp == Globals::UNAVAILABLE_INT or grid.cd == Globals::UNAVAILABLE_INT or grid.ps == Globals::UNAVAILABLE_INT) {
+        if (grid.ps != Globals::UNAVAILABLE_INT) {
+            grid.ps = 0; // already taken into account
+        }
+        gridsWithBlanks.push_back(grid);
+    }
+}
+
+void NastranParser::addGrid(const Grid& grid, Model& model) {
+    const int id = grid.id;
+    const int cp = grid.cp == Globals::UNAVAILABLE_INT ? grdSet.cp : grid.cp;
     pos_t cpos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scp;
     if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
@@ -81,21 +101,16 @@ void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
         scp=" in CS"+to_string(cp)+"_"+to_string(cpos);
     }
 
-    double x1 = tok.nextDouble(true, 0.0);
-    double x2 = tok.nextDouble(true, 0.0);
-    double x3 = tok.nextDouble(true, 0.0);
-
-    /* Coordinate System for Displacement */
-    int cd = tok.nextInt(true, static_cast<int>(grdSet.cd));
+    const int cd = grid.cd == Globals::UNAVAILABLE_INT ? grdSet.cd : grid.cd;
     pos_t cdos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scd="";
     if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
         cdos = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cd));
         scd=", DISP in CS"+to_string(cd)+"_"+to_string(cdos);
     }
-    model.mesh.addNode(id, x1, x2, x3, cpos, cdos);
+    model.mesh.addNode(id, grid.x1, grid.x2, grid.x3, cpos, cdos);
 
-    int ps = tok.nextInt(true, grdSet.ps);
+    const int ps = grid.ps == Globals::UNAVAILABLE_INT ? grdSet.ps : grid.ps;
     if (ps) {
         string spcName = "SPC" + to_string(id);
         const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::nastranCodeToDOFS(ps));
@@ -105,7 +120,7 @@ void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
     }
 
     if (this->logLevel >= LogLevel::TRACE) {
-        cout << fixed << "GRID " << id << ": (" << x1 << ";" << x2 << ";" << x3 <<")"<< scp<<scd<< endl;
+        cout << fixed << "GRID " << id << ": (" << grid.x1 << ";" << grid.x2 << ";" << grid.x3 <<")"<< scp<<scd<< endl;
     }
 }
 
-- 
2.43.0


From d67143a799bcc34f9326aa57669fe4bf3229e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 102/153] fix: spherical displacement and load systems, and
 points on the axis of cylindrical ones

---
 Abstract/CoordinateSystem.cpp | 44 +++++++++++++++++++++++++++++++----
 Abstract/CoordinateSystem.h   | 16 +++++++++++--
 Systus/SystusWriter.cpp       | 10 ++++----
 3 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index df44ebe..d284567 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -288,13 +288,34 @@ VectorialValue CylindricalCoordinateSystem::getLocalEulerAnglesIntrinsicZYX(cons
 SphericalCoordinateSystem::SphericalCoordinateSystem(const Mesh& mesh,
         const VectorialValue origin, const VectorialValue ex, const VectorialValue ey, const Reference<CoordinateSystem> rcs,
         int original_id) :
-        CoordinateSystem(mesh, CoordinateSystem::Type::ABSOLUTE, CoordinateSystem::CoordinateType::CYLINDRICAL, origin, ex, ey, rcs, original_id) {
+        CoordinateSystem(mesh, CoordinateSystem::Type::ABSOLUTE, CoordinateSystem::CoordinateType::SPHERICAL, origin, ex, ey, rcs, original_id), ur(this->ez), utheta(this->ex), uphi(this->ey) {
+}
+
+void SphericalCoordinateSystem::build() {
+    if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
+        return;
+    }
+    resolveReference();
+    ur = ez;
+    utheta = ex;
+    uphi = ey;
 }
 
 // TODO : LD What's this ? Should this method be renamed moveOrigin ?
 void SphericalCoordinateSystem::updateLocalBase(const VectorialValue& point) {
-    UNUSEDV(point);
-    throw logic_error("updateLocalBase not done for Spherical Coordinate System");
+    const VectorialValue& localPoint = point - origin;
+    const VectorialValue& radial = localPoint - localPoint.dot(ez) * ez;
+    if (radial.iszero()) {
+        uphi = ey; // on the axis
+    } else {
+        uphi = ez.cross(radial).normalized();
+    }
+    if (localPoint.iszero()) {
+        ur = ez;
+    } else {
+        ur = localPoint.normalized();
+    }
+    utheta = uphi.cross(ur);
 }
 
 VectorialValue SphericalCoordinateSystem::positionToGlobal(const VectorialValue& local) const{
@@ -319,8 +340,16 @@ VectorialValue SphericalCoordinateSystem::positionToGlobal(const VectorialValue&
 
 VectorialValue SphericalCoordinateSystem::vectorToGlobal(
         const VectorialValue& local) const {
-    UNUSEDV(local);
-    throw logic_error("Vector To Global conversion not done for Spherical Coordinate System");
+    double x = local.x() * ur.x() + local.y() * utheta.x() + local.z() * uphi.x();
+    double y = local.x() * ur.y() + local.y() * utheta.y() + local.z() * uphi.y();
+    double z = local.x() * ur.z() + local.y() * utheta.z() + local.z() * uphi.z();
+    VectorialValue vect = VectorialValue(x, y, z);
+    if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
+        return vect;
+    } else {
+        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        return coordSystem->vectorToGlobal(vect);
+    }
 }
 
 VectorialValue SphericalCoordinateSystem::vectorToLocal(const VectorialValue& global) const {
@@ -328,6 +357,11 @@ VectorialValue SphericalCoordinateSystem::vectorToLocal(const VectorialValue& gl
     throw logic_error("Global To Local vector conversion not done for Spherical Coordinate System");
 }
 
+VectorialValue SphericalCoordinateSystem::getLocalEulerAnglesIntrinsicZYX(const CoordinateSystem *cs) const {
+    CartesianCoordinateSystem localCS(this->mesh, VectorialValue(0,0,0), this->ur, this->utheta);
+    return localCS.getEulerAnglesIntrinsicZYX(cs);
+}
+
 unique_ptr<CoordinateSystem> SphericalCoordinateSystem::clone() const {
     return make_unique<SphericalCoordinateSystem>(*this);
 }
diff --git a/Abstract/CoordinateSystem.h b/Abstract/CoordinateSystem.h
index f8dabc8..16f233d 100644
--- a/Abstract/CoordinateSystem.h
+++ b/Abstract/CoordinateSystem.h
@@ -121,6 +121,12 @@ public:
      * TODO LD use internal RCS ?
      */
     virtual VectorialValue getEulerAnglesIntrinsicZYX(const CoordinateSystem *cs = nullptr) const;
+    /**
+     *  Same angles, for the local base at the point given to updateLocalBase.
+     */
+    virtual VectorialValue getLocalEulerAnglesIntrinsicZYX(const CoordinateSystem *cs = nullptr) const {
+        return getEulerAnglesIntrinsicZYX(cs);
+    }
     virtual std::unique_ptr<CoordinateSystem> clone() const = 0;
 };
 
@@ -209,23 +215,28 @@ public:
      *  around the axes (OZ, OY, OX) of the coordinate system RCS.
      *  If no rcsPos is provided, the global coordinate system is used.
      */
-    VectorialValue getLocalEulerAnglesIntrinsicZYX(const CoordinateSystem *rcs = nullptr) const;
+    VectorialValue getLocalEulerAnglesIntrinsicZYX(const CoordinateSystem *rcs = nullptr) const override;
 
 
     std::unique_ptr<CoordinateSystem> clone() const override;
 };
 
 class SphericalCoordinateSystem: public CoordinateSystem {
+    VectorialValue ur;
+    VectorialValue utheta;
+    VectorialValue uphi;
     public:
     SphericalCoordinateSystem(const Mesh&, const VectorialValue origin, const VectorialValue ex,
             const VectorialValue ey, const Reference<CoordinateSystem> rcs = GLOBAL_COORDINATE_SYSTEM, int original_id = NO_ORIGINAL_ID);
+    void build() override;
     /**
      *  Compute the local spheric base (ur, utheta, uphi) corresponding to point.
      *   Point must be expressed in the reference cartesian coordinate system.
      */
     void updateLocalBase(const VectorialValue& point) override;
     /**
-     *  Not done
+     *  Translate a position expressed in this coordinate system (r, theta, phi),
+     *   to its global counterpart (x,y,z). theta and phi are expressed in degrees.
      */
     VectorialValue positionToGlobal(const VectorialValue&) const override;
     /**
@@ -235,6 +246,7 @@ class SphericalCoordinateSystem: public CoordinateSystem {
      */
     VectorialValue vectorToGlobal(const VectorialValue&) const override;
     VectorialValue vectorToLocal(const VectorialValue&) const override;
+    VectorialValue getLocalEulerAnglesIntrinsicZYX(const CoordinateSystem *rcs = nullptr) const override;
     std::unique_ptr<CoordinateSystem> clone() const override;
 };
 
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 11b4dda..50a6a58 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1633,12 +1633,12 @@ void SystusWriter::fillCoordinatesVectors(const SystusModel& systusModel, const
                     localVectorIdByCoordinateSystemPos[node.displacementCS]=vectorId;
                     break;
                     }
-                // Cylyndrical orientation : we create a vector by point
-                case CoordinateSystem::CoordinateType::CYLINDRICAL:{
+                // Cylindrical or spherical orientation : we create a vector by point
+                case CoordinateSystem::CoordinateType::CYLINDRICAL:
+                case CoordinateSystem::CoordinateType::SPHERICAL: {
                     const Node& nNode = mesh.findNode(node.position);
-                    const auto& ccs = static_pointer_cast<CylindricalCoordinateSystem>(cs);
-                    ccs->updateLocalBase(VectorialValue(nNode.x, nNode.y, nNode.z));
-                    const auto& angles = ccs->getLocalEulerAnglesIntrinsicZYX(); // (PSI, THETA, PHI)
+                    cs->updateLocalBase(VectorialValue(nNode.x, nNode.y, nNode.z));
+                    const auto& angles = cs->getLocalEulerAnglesIntrinsicZYX(); // (PSI, THETA, PHI)
                     vec.push_back(0);
                     vec.push_back(0);
                     vec.push_back(0);
-- 
2.43.0


From fb96d29fe8d985bd34ec8532cfd758011b062189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:22 +0000
Subject: [PATCH 103/153] fix: coordinate systems and displacement coordinate
 systems of nodes were not written completely in NASTRAN

---
 Nastran/NastranWriter.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 0f5edec..4dd1326 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -385,13 +385,16 @@ void NastranWriter::writeNodes(const Model& model, ofstream& out) const
         }
     }
 	for (Node node : model.mesh.nodes) {
-        if (node.displacementCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
-            cerr << "Warning in GRID "<<node.id<<" CD not supported and dismissed."<<endl;
 		Line grid("GRID");
 		grid.add(node.id).add().add(node.x).add(node.y).add(node.z);
+		if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+			grid.add(model.mesh.getCoordinateSystemByPosition(node.displacementCS)->bestId()); // CD
+		} else {
+			grid.add();
+		}
 		const auto& permanentSpc = permanentSpcByNodeId.find(node.id);
 		if (permanentSpc != permanentSpcByNodeId.end()) {
-			grid.add().add(permanentSpc->second);
+			grid.add(permanentSpc->second);
 		}
 		out << grid;
 	}
@@ -1157,22 +1160,23 @@ string NastranWriter::writeModel(Model& model,
         if (coordinateSystem->type != CoordinateSystem::Type::ABSOLUTE) {
             continue;
         }
+		string keyword;
 		switch (coordinateSystem->coordType) {
 			case CoordinateSystem::CoordinateType::CARTESIAN:
-				// TODO LD complete
-				out << Line("CORD2R").add(coordinateSystem->bestId()).add(coordinateSystem->getOrigin());
+				keyword = "CORD2R";
 				break;
 			case CoordinateSystem::CoordinateType::SPHERICAL:
-				// TODO LD complete
-				out << Line("CORD2S").add(coordinateSystem->bestId()).add(coordinateSystem->getOrigin());
+				keyword = "CORD2S";
 				break;
 			case CoordinateSystem::CoordinateType::CYLINDRICAL:
-				// TODO LD complete
-				out << Line("CORD2C").add(coordinateSystem->bestId()).add(coordinateSystem->getOrigin());
+				keyword = "CORD2C";
 				break;
 			default:
 				handleWritingError("Unimplemented coordinate system type");
 		}
+		const VectorialValue& origin = coordinateSystem->getOrigin();
+		out << Line(keyword).add(coordinateSystem->bestId()).add(0).add(origin).add(origin + coordinateSystem->getEz()).add(
+				origin + coordinateSystem->getEx());
 	}
 	writeRuler(out);
 	writeNodes(model, out);
-- 
2.43.0


From 67ff068b356a06aaac98fb66bb62c8c0aed1fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:22 +0000
Subject: [PATCH 104/153] fix: non structural masses and shear area factors
 were not written in NASTRAN

---
 Nastran/NastranWriter.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 4dd1326..02cc6bd 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -860,6 +860,8 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
+		prod.add(0.0); // C
+		prod.add(truss->getAdditionalRho() * truss->getAreaCrossSection()); // NSM
 		out << prod;
 		truss->markAsWritten();
 	}
@@ -875,6 +877,15 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 			pbeam.add(0.0); // I12, which comes after J in PBAR
 		}
 		pbeam.add(beam->getTorsionalConstant());
+		pbeam.add(beam->getAdditionalRho() * beam->getAreaCrossSection()); // NSM
+		if (isCosmic()) {
+			pbeam.add();
+		}
+		pbeam.skip(8); // stress recovery points
+		for (const double shearAreaFactor : {beam->getShearAreaFactorY(), beam->getShearAreaFactorZ()}) {
+			const bool rigid = is_zero(shearAreaFactor) or is_equal(shearAreaFactor, Globals::UNAVAILABLE_DOUBLE);
+			pbeam.add(rigid ? 0.0 : 1.0 / shearAreaFactor); // K1, K2: zero is for no shear flexibility
+		}
 		out << pbeam;
 		beam->markAsWritten();
 	}
@@ -885,6 +896,10 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		pshell.add(shell->mainMaterial()->bestId());
 		pshell.add(shell->thickness);
 		pshell.add(shell->mainMaterial()->bestId()); // MID2 for bending
+		const double nsm = shell->getAdditionalRho() * shell->thickness;
+		if (not is_zero(nsm)) {
+			pshell.skip(3).add(nsm);
+		}
 		out << pshell;
 		shell->markAsWritten();
 	}
-- 
2.43.0


From d2b3f3076163ca5820bbdf37273cd18466e6d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 105/153] fix: imposed displacements were not written in
 NASTRAN

---
 Nastran/NastranWriter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 02cc6bd..adfb324 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -682,6 +682,17 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
             forceSurface->markAsWritten();
         }
 
+        for (const auto& loading : loadingSet->getLoadingsByType(Loading::Type::IMPOSED_DISPLACEMENT)) {
+            const auto& imposed = static_pointer_cast<ImposedDisplacement>(loading);
+            for (const auto nodePosition : imposed->getNodePositionsIncludingGroups()) {
+                for (const DOF dof : imposed->getDOFSForNode(nodePosition)) {
+                    out << Line("SPCD").add(loadingSet->bestId()).add(model.mesh.findNodeId(nodePosition)).add(DOFS(dof)).add(
+                            imposed->getDoubleForDOF(dof));
+                }
+            }
+            imposed->markAsWritten();
+        }
+
         const auto& normalPressionShells = loadingSet->getLoadingsByType(
 				Loading::Type::NORMAL_PRESSION_SHELL);
         for (const auto& loading : normalPressionShells) {
-- 
2.43.0


From 8663458f83e40c939b507bba08986973a0a58ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 106/153] fix: crash of the NASTRAN writer on a directed
 pressure over a shell

---
 Nastran/NastranWriter.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index adfb324..b529e75 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -641,10 +641,8 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
 		const auto& forceSurfaces = loadingSet->getLoadingsByType(
 				Loading::Type::FORCE_SURFACE);
         for (const auto& loading : forceSurfaces) {
-            const auto& forceSurface = dynamic_pointer_cast<ForceSurfaceTwoNodes>(loading);
-            if (forceSurface == nullptr) {
-                handleWritingError("Need to implement writing other ForceSurface subclasses");
-            }
+            const auto& forceSurface = static_pointer_cast<ForceSurface>(loading);
+            const auto& forceSurfaceTwoNodes = dynamic_pointer_cast<ForceSurfaceTwoNodes>(loading); // null for a shell
             const auto& cellPositions = forceSurface->getCellPositionsIncludingGroups();
             for (const pos_t cellPosition: cellPositions) {
                 const Cell& cell = model.mesh.findCell(cellPosition);
@@ -659,14 +657,14 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
                     handleWritingError("Unimplemented moment in PLOAD4");
                 }
 
-                const int nodeId1 = model.mesh.findNodeId(forceSurface->nodePosition1);
-                pload4.add(nodeId1);
-                int nodeId2 = Globals::UNAVAILABLE_INT;
-                if (forceSurface->nodePosition2 != Globals::UNAVAILABLE_POS) {
-                    nodeId2 = model.mesh.findNodeId(forceSurface->nodePosition2);
-                    pload4.add(nodeId2);
-                } else {
-                    pload4.add("");
+                for (const pos_t nodePosition : {
+                        forceSurfaceTwoNodes == nullptr ? Globals::UNAVAILABLE_POS : forceSurfaceTwoNodes->nodePosition1,
+                        forceSurfaceTwoNodes == nullptr ? Globals::UNAVAILABLE_POS : forceSurfaceTwoNodes->nodePosition2 }) {
+                    if (nodePosition != Globals::UNAVAILABLE_POS) {
+                        pload4.add(model.mesh.findNodeId(nodePosition));
+                    } else {
+                        pload4.add("");
+                    }
                 }
                 if (forceSurface->hasCoordinateSystem()) {
                     shared_ptr<CoordinateSystem> coordinateSystem = model.mesh.findCoordinateSystem(forceSurface->csref);
-- 
2.43.0


From 92d8d36989d8398f6ec4bd15d84627f3f8d4e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 107/153] fix: partial line loads and line loads by length were
 written wrongly in NASTRAN

---
 Nastran/NastranWriter.cpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index b529e75..08df539 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -776,25 +776,28 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
                 handleWritingError("DOF not yet handled");
             }
             const auto& functionTable = static_pointer_cast<FunctionTable>(forceLine->force);
+            const string scale = functionTable->getParaX() == FunctionTable::ParaName::LENGTH ? "LE" : "FR";
             auto it = functionTable->getBeginValuesXY();
-            double x1 = it->first;
-            double p1 = it->second;
-            it++;
-            double x2 = it->first;
-            double p2 = it->second;
-            if (++it != functionTable->getEndValuesXY())
-                handleWritingWarning("More than two values in function table for force line, ignoring from the third.");
-            for (const int cellId: forceLine->getCellIdsIncludingGroups()) {
-                Line pload1("PLOAD1");
-                pload1.add(loadingSet->bestId());
-                pload1.add(cellId);
-                pload1.add(forceType);
-                pload1.add("FR");
-                pload1.add(x1);
-                pload1.add(p1);
-                pload1.add(x2);
-                pload1.add(p2);
-                out << pload1;
+            pair<double, double> start = *it;
+            while (++it != functionTable->getEndValuesXY()) {
+                const pair<double, double> end = *it;
+                // a load which starts or stops between the ends of the bar is described by a very short ramp
+                const bool ramp = (end.first - start.first) <= end.first / 500;
+                if (not ramp) {
+                    for (const int cellId: forceLine->getCellIdsIncludingGroups()) {
+                        Line pload1("PLOAD1");
+                        pload1.add(loadingSet->bestId());
+                        pload1.add(cellId);
+                        pload1.add(forceType);
+                        pload1.add(scale);
+                        pload1.add(start.first);
+                        pload1.add(start.second);
+                        pload1.add(end.first);
+                        pload1.add(end.second);
+                        out << pload1;
+                    }
+                }
+                start = end;
             }
             forceLine->markAsWritten();
         }
-- 
2.43.0


From 467067a5433f3abe2fa0f6573fcab8e369f8ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:21 +0000
Subject: [PATCH 108/153] fix: partial RBE2 were written as MPC which are never
 selected in NASTRAN

---
 Abstract/ConfigurationParameters.cpp | 1 +
 Abstract/ConfigurationParameters.h   | 5 +++++
 Abstract/Model.cpp                   | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Abstract/ConfigurationParameters.cpp b/Abstract/ConfigurationParameters.cpp
index b6e1ff3..e897de9 100644
--- a/Abstract/ConfigurationParameters.cpp
+++ b/Abstract/ConfigurationParameters.cpp
@@ -83,6 +83,7 @@ ModelConfiguration ConfigurationParameters::getModelConfiguration() const {
         configuration.splitElementsByCellOffsets = true;
     } else if (this->outputSolver.getSolverName() == SolverName::NASTRAN) {
         // default should be always false
+        configuration.convertPartialRigidsIntoMPCs = false;
         configuration.autoDetectAnalysis = true;
         configuration.replaceCombinedLoadSets = true; // tentative workaround for problem in LOAD BULK detection
     } else {
diff --git a/Abstract/ConfigurationParameters.h b/Abstract/ConfigurationParameters.h
index 10e22ac..08ab0b0 100644
--- a/Abstract/ConfigurationParameters.h
+++ b/Abstract/ConfigurationParameters.h
@@ -181,6 +181,11 @@ public:
     /**
      * Use MPCs instead of completely rigid constraints
      */
+    /**
+     * Partial rigid elements (eg a RBE2 on some degrees of freedom only) are replaced by linear relations,
+     * for the solvers which do not have them.
+     */
+    bool convertPartialRigidsIntoMPCs = true;
     bool convertCompletelyRigidsIntoMPCs = false;
 
 
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index fe67911..b22c815 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2272,7 +2272,7 @@ void Model::finish() {
 
     for (const auto& constraint : constraints.filter(Constraint::Type::QUASI_RIGID)) {
         const auto& rigid = static_pointer_cast<QuasiRigidConstraint>(constraint);
-        if (this->configuration.convertCompletelyRigidsIntoMPCs or not rigid->isCompletelyRigid())
+        if (rigid->isCompletelyRigid() ? this->configuration.convertCompletelyRigidsIntoMPCs : this->configuration.convertPartialRigidsIntoMPCs)
             rigid->emulateWithMPCs();
     }
 
-- 
2.43.0


From 30e6018bc8dd1931206b0be00e7ecbffdeddd401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:39 +0000
Subject: [PATCH 109/153] fix: orientations of bushings were not written in
 NASTRAN

---
 Nastran/NastranWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 08df539..5b2b9ce 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -362,6 +362,12 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                 if (isCosmic())
                     F = "1";
                 cellLine.add(x1x2x3).add(F);
+            } else if (elementSet->isDiscrete() and cell.hasOrientation) {
+                if (cell.orientation->type == CoordinateSystem::Type::RELATIVE) {
+                    cellLine.add(cell.orientation->getV());
+                } else {
+                    cellLine.skip(3).add(cell.orientation->bestId()); // CID
+                }
             } else if (elementSet->isShell()) {
                 cellLine.add(); // theta (real) or matid (int)
                 cellLine.add(cell.offset);
-- 
2.43.0


From 0ff07fe7b1b2f7b10f0d2a9cde1ebf3f0e0aadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:17 +0000
Subject: [PATCH 110/153] fix: composites were not written in NASTRAN, nor the
 offset of CQUAD8 in its field

---
 Nastran/NastranWriter.cpp | 46 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 5b2b9ce..dcb1639 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -260,7 +260,7 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                 keyword = "CROD";
             } else if (elementSet->isDiscrete() and cell.type.code == CellType::Code::SEG2_CODE) {
                 keyword = "CBUSH";
-			} else if (elementSet->isShell()) {
+			} else if (elementSet->isShell() or elementSet->isComposite()) {
 				switch (cell.type.code) {
 				case CellType::Code::TRI3_CODE:
 					keyword = "CTRIA3";
@@ -368,7 +368,10 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                 } else {
                     cellLine.skip(3).add(cell.orientation->bestId()); // CID
                 }
-            } else if (elementSet->isShell()) {
+            } else if (elementSet->isShell() or elementSet->isComposite()) {
+                if (cell.type.code == CellType::Code::QUAD8_CODE) {
+                    cellLine.skip(4); // T1 to T4
+                }
                 cellLine.add(); // theta (real) or matid (int)
                 cellLine.add(cell.offset);
             }
@@ -434,7 +437,28 @@ void NastranWriter::writeMaterials(const Model& model, ofstream& out) const
 			    mat1.add();
 			}
 		}
-		out << mat1;
+		const auto& onature = material->findNature(Nature::NatureType::NATURE_ORTHOTROPIC);
+		if (onature) {
+			const OrthotropicNature& orthotropicNature = dynamic_cast<const OrthotropicNature&>(*onature);
+			Line mat8("MAT8");
+			mat8.add(material->bestId());
+			for (const double value : { orthotropicNature.getE_longitudinal(), orthotropicNature.getE_transverse(),
+			        orthotropicNature.getNu_longitudinal_transverse(), orthotropicNature.getG_longitudinal_transverse(),
+			        orthotropicNature.getG_longitudinal_normal(), orthotropicNature.getG_transverse_normal(),
+			        orthotropicNature.getRho(), orthotropicNature.getAlphaL(), orthotropicNature.getAlphaT(),
+			        orthotropicNature.getTempDefAlpha(), orthotropicNature.getXt(), orthotropicNature.getXc(),
+			        orthotropicNature.getYt(), orthotropicNature.getYc(), orthotropicNature.getSlt() }) {
+				if (is_equal(value, Globals::UNAVAILABLE_DOUBLE)) {
+					mat8.add();
+				} else {
+					mat8.add(value);
+				}
+			}
+			out << mat8;
+		}
+		if (enature or not onature) {
+			out << mat1;
+		}
 		material->markAsWritten();
 	}
 }
@@ -921,6 +945,22 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		out << pshell;
 		shell->markAsWritten();
 	}
+	for (const auto& elementSet : model.elementSets.filter(ElementSet::Type::COMPOSITE)) {
+		const auto& composite = static_pointer_cast<Composite>(elementSet);
+		if (not is_equal(composite->allowableInterlaminarShearStress, Globals::UNAVAILABLE_DOUBLE)
+		        or composite->plyFailureTheory != Composite::PlyFailureTheory::NONE) {
+			handleWritingWarning("Failure theory of composites not written", "PCOMP");
+		}
+		Line pcomp("PCOMP");
+		pcomp.add(composite->bestId());
+		pcomp.add(composite->offset - composite->getTotalThickness() / 2); // Z0
+		pcomp.skip(6);
+		for (const auto& layer : composite->getFullLayers()) {
+			pcomp.add(layer->getMaterial()->bestId()).add(layer->getThickness()).add(layer->getOrientation()).add();
+		}
+		out << pcomp;
+		composite->markAsWritten();
+	}
 	for (const auto& continuum : model.elementSets.filter(ElementSet::Type::CONTINUUM)) {
 	    string keyword = isCosmic() ? "PIHEX" : "PSOLID";
 		Line psolid(keyword);
-- 
2.43.0


From 680e046d3fbf5f51335b0423fc9d85874d32a6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:17 +0000
Subject: [PATCH 111/153] fix: single node bushings were not written in
 NASTRAN, and cells of point masses were written without a name

---
 Nastran/NastranWriter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index dcb1639..04fe3fa 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -248,8 +248,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 		if (elementSet->isMatrixElement()) {
 			continue;
 		}
-		if (elementSet->type == ElementSet::Type::SCALAR_SPRING) {
-			continue; // written with its values, as scalar elements
+		if (elementSet->type == ElementSet::Type::SCALAR_SPRING or elementSet->type == ElementSet::Type::DISCRETE_0D
+		        or elementSet->type == ElementSet::Type::NODAL_MASS) {
+			continue; // written with its values
 		}
 		for (const pos_t cellPosition : elementSet->cellPositions()) {
             const Cell& cell = model.mesh.findCell(cellPosition);
@@ -258,7 +259,7 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                 keyword = isCosmic() ? "CBAR" : "CBEAM";
             } else if (elementSet->isTruss()) {
                 keyword = "CROD";
-            } else if (elementSet->isDiscrete() and cell.type.code == CellType::Code::SEG2_CODE) {
+            } else if (elementSet->type == ElementSet::Type::STRUCTURAL_SEGMENT) {
                 keyword = "CBUSH";
 			} else if (elementSet->isShell() or elementSet->isComposite()) {
 				switch (cell.type.code) {
@@ -363,6 +364,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                     F = "1";
                 cellLine.add(x1x2x3).add(F);
             } else if (elementSet->isDiscrete() and cell.hasOrientation) {
+                if (cell.type.code == CellType::Code::POINT1_CODE) {
+                    cellLine.add(); // GB
+                }
                 if (cell.orientation->type == CoordinateSystem::Type::RELATIVE) {
                     cellLine.add(cell.orientation->getV());
                 } else {
-- 
2.43.0


From 6428b5a82541c5ef5fe910f006d077228e5527e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:56 +0000
Subject: [PATCH 112/153] fix: coordinate system of CONM2 was not written in
 NASTRAN

---
 Nastran/NastranWriter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 04fe3fa..5323b5b 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -1003,11 +1003,12 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	}
     for (const auto& elementSet: model.elementSets.filter(ElementSet::Type::NODAL_MASS)) {
         const auto& mass = static_pointer_cast<const NodalMass>(elementSet);
-        for (const auto nodePosition: mass->nodePositions()) {
+        for (const pos_t cellPosition: mass->cellPositions()) {
+            const Cell& cell = model.mesh.findCell(cellPosition);
             Line conm2("CONM2");
             conm2.add(mass->bestId());
-            conm2.add(model.mesh.findNodeId(nodePosition));
-            conm2.add(0); // CID
+            conm2.add(cell.nodeIds.front());
+            conm2.add(cell.hasOrientation ? cell.orientation->bestId() : 0); // CID
             conm2.add(mass->getMass());
             conm2.add(mass->ex);
             conm2.add(mass->ey);
-- 
2.43.0


From a7f0d67cceec6f8e8eb9437a88804082ab38576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:49 +0000
Subject: [PATCH 113/153] fix: property of a CONROD could have the number of
 another property in NASTRAN

---
 Nastran/NastranWriter.cpp | 27 ++++++++++++++++++++-------
 Nastran/NastranWriter.h   |  4 ++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 5323b5b..b9598be 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -242,6 +242,19 @@ void NastranWriter::writeSOL(const Model& model, ofstream& out) const
 	firstAnalysis->markAsWritten();
 }
 
+int NastranWriter::propertyId(const Model& model, const ElementSet& elementSet) const {
+	if (elementSet.isOriginal()) {
+		return elementSet.getOriginalId();
+	}
+	int maxOriginalId = 0;
+	for (const auto& other : model.elementSets) {
+		if (other->isOriginal()) {
+			maxOriginalId = max(maxOriginalId, other->getOriginalId());
+		}
+	}
+	return maxOriginalId + elementSet.getId();
+}
+
 void NastranWriter::writeCells(const Model& model, ofstream& out) const
 		{
 	for (const auto& elementSet : model.elementSets) {
@@ -352,7 +365,7 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
             if (isCosmic() && (cell.type.code == CellType::Code::TETRA4_CODE || cell.type.code == CellType::Code::TETRA10_CODE)) {
                 cellLine.add(cell.id).add(elementSet->mainMaterial()->bestId()).add(nasConnect);
             } else {
-                cellLine.add(cell.id).add(elementSet->bestId()).add(nasConnect);
+                cellLine.add(cell.id).add(propertyId(model, *elementSet)).add(nasConnect);
             }
 
             if (elementSet->isBeam() and cell.hasOrientation) {
@@ -902,7 +915,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		{
 	for (const auto& truss : model.getTrusses()) {
 		Line prod("PROD");
-		prod.add(truss->bestId());
+		prod.add(propertyId(model, *truss));
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
@@ -914,7 +927,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	for (const auto& beam : model.getBeams()) {
 	    string beamModel = isCosmic() ? "PBAR" : "PBEAM";
 		Line pbeam(beamModel);
-		pbeam.add(beam->bestId());
+		pbeam.add(propertyId(model, *beam));
 		pbeam.add(beam->mainMaterial()->bestId());
 		pbeam.add(beam->getAreaCrossSection());
 		pbeam.add(beam->getMomentOfInertiaZ());
@@ -938,7 +951,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	for (const auto& elementSet : model.elementSets.filter(ElementSet::Type::SHELL)) {
 		const auto& shell = static_pointer_cast<Shell>(elementSet);
 		Line pshell("PSHELL");
-		pshell.add(shell->bestId());
+		pshell.add(propertyId(model, *shell));
 		pshell.add(shell->mainMaterial()->bestId());
 		pshell.add(shell->thickness);
 		pshell.add(shell->mainMaterial()->bestId()); // MID2 for bending
@@ -956,7 +969,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 			handleWritingWarning("Failure theory of composites not written", "PCOMP");
 		}
 		Line pcomp("PCOMP");
-		pcomp.add(composite->bestId());
+		pcomp.add(propertyId(model, *composite));
 		pcomp.add(composite->offset - composite->getTotalThickness() / 2); // Z0
 		pcomp.skip(6);
 		for (const auto& layer : composite->getFullLayers()) {
@@ -968,7 +981,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	for (const auto& continuum : model.elementSets.filter(ElementSet::Type::CONTINUUM)) {
 	    string keyword = isCosmic() ? "PIHEX" : "PSOLID";
 		Line psolid(keyword);
-		psolid.add(continuum->bestId());
+		psolid.add(propertyId(model, *continuum));
 		psolid.add(continuum->mainMaterial()->bestId());
 		if (continuum->modelType == ModelType::TRIDIMENSIONAL and not isCosmic()) {
             psolid.add(0);
@@ -1030,7 +1043,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             handleWritingError("discrete not completely written");
         }
         Line pbush("PBUSH");
-        pbush.add(segment->bestId());
+        pbush.add(propertyId(model, *segment));
         pbush.add("K");
         for (const DOF dof: DOFS::ALL_DOFS) {
             pbush.add(segment->findStiffness(dof, dof));
diff --git a/Nastran/NastranWriter.h b/Nastran/NastranWriter.h
index 30d3cbc..494c0fd 100644
--- a/Nastran/NastranWriter.h
+++ b/Nastran/NastranWriter.h
@@ -65,6 +65,10 @@ private:
 	    return dialect == Dialect::COSMIC95;
 	}
 	void writeSOL(const Model& model, std::ofstream& out) const;
+	/**
+	 * Number of the property, different from the ones given by the user if there was none in the original model.
+	 */
+	int propertyId(const Model& model, const ElementSet& elementSet) const;
 	void writeCells(const Model& model, std::ofstream& out) const;
 	void writeNodes(const Model& model, std::ofstream& out) const;
 	void writeMaterials(const Model& model, std::ofstream& out) const;
-- 
2.43.0


From 83623a2abba1da7b27e7f76ca50053df736760fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 114/153] fix: end with an error when an output file could not
 be written completely

---
 Abstract/SolverInterfaces.cpp |  7 +++++++
 Abstract/SolverInterfaces.h   |  7 +++++++
 Aster/AsterWriter.cpp         |  4 ++--
 Aster/MedWriter.cpp           |  8 +++++---
 Nastran/NastranWriter.cpp     |  2 +-
 Systus/SystusWriter.cpp       | 12 ++++++------
 6 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index dcf7786..3264ef3 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -206,6 +206,13 @@ void Writer::handleWritingWarning(const string& message, const string& keyword,
     cerr << WritingMessageWarning(message, keyword, file) << endl;
 }
 
+void Writer::closeFile(ofstream& file, const string& path) const {
+    file.close();
+    if (file.fail()) {
+        throw WritingException("Error while writing, the file is not complete.", "", path);
+    }
+}
+
 
 
 ostream& operator<<(ostream& out, Writer& f) {
diff --git a/Abstract/SolverInterfaces.h b/Abstract/SolverInterfaces.h
index 271fa1c..68f13ff 100644
--- a/Abstract/SolverInterfaces.h
+++ b/Abstract/SolverInterfaces.h
@@ -13,6 +13,7 @@
 
 #include <memory>
 #include <iostream>
+#include <fstream>
 #include <vector>
 #include <istream>
 #include "ConfigurationParameters.h"
@@ -164,6 +165,12 @@ public:
      */
 	//TODO: Decide of a politic for warning.
 	void handleWritingWarning(const std::string& message, const std::string& keyword="", const std::string& file="") const;
+
+    /**
+     * Close a file that has been written.
+     * Throw a WritingException if some of its content could not be written (disk full, I/O error...).
+     */
+	void closeFile(std::ofstream& file, const std::string& path) const;
 };
 
 class Runner {
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 6052449..6a00a05 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -84,7 +84,7 @@ string AsterWriter::writeModel(Model& model,
 		throw ios::failure(message);
 	}
 	this->writeExport();
-	exp_file_ofs.close();
+	closeFile(exp_file_ofs, exp_path);
 
 	comm_file_ofs.open(comm_path.c_str(), ios::out | ios::trunc);
 
@@ -93,7 +93,7 @@ string AsterWriter::writeModel(Model& model,
 		throw ios::failure(message);
 	}
 	this->writeComm();
-	comm_file_ofs.close();
+	closeFile(comm_file_ofs, comm_path);
 
 	MedWriter medWriter;
 	medWriter.writeMED(model, med_path.c_str());
diff --git a/Aster/MedWriter.cpp b/Aster/MedWriter.cpp
index 3c1f062..063f580 100644
--- a/Aster/MedWriter.cpp
+++ b/Aster/MedWriter.cpp
@@ -244,7 +244,9 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
     for(med_int i=0; i<nnodes;i++){
         numnoe.push_back(i+1);
     }
-    MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE,nnodes, numnoe.data());
+    if (MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE,nnodes, numnoe.data()) < 0) {
+        throw logic_error("ERROR : writing node numbers ...");
+    }
     numnoe.clear();
 
 	for (const auto& kv : model.mesh.cellPositionsByType) {
@@ -296,11 +298,11 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
         for (const auto cellPosition : cellPositions) {
             cellnums.push_back(static_cast<med_int>(cellPosition)+1);
         }
-        MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_CELL, code, numCells, cellnums.data());
+        result = MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_CELL, code, numCells, cellnums.data());
         cellnums.clear();
 
         if (result < 0) {
-        throw logic_error("ERROR : writing cell names ...");
+        throw logic_error("ERROR : writing cell numbers ...");
         }
 	}
 
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index b9598be..645a0f9 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -1284,7 +1284,7 @@ string NastranWriter::writeModel(Model& model,
 
 	out << "ENDDATA" << endl;
 
-	out.close();
+	closeFile(out, nasPath);
 	return nasPath;
 }
 
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 50a6a58..51bc80f 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -386,7 +386,7 @@ string SystusWriter::writeModel(Model& model,
             throw ios::failure("Can't open file " + asc_path + " for writing.");
         }
         this->writeAsc(systusModel, idSubcase, asc_file_ofs);
-        asc_file_ofs.close();
+        closeFile(asc_file_ofs, asc_path);
 
         /* Write some matrix files, if needed */
         this->writeMatrixFiles(systusModel, idSubcase);
@@ -401,7 +401,7 @@ string SystusWriter::writeModel(Model& model,
             throw ios::failure("Can't open file " + analyse_path + " for writing.");
         }
         this->writeDat(systusModel, configuration, idSubcase, analyse_file_ofs);
-        analyse_file_ofs.close();
+        closeFile(analyse_file_ofs, analyse_path);
 
         if (configuration.systusOutputProduct=="systus"){
             dat_file_ofs << "READ " << systusModel.getName() << "_SC" << to_string(idSubcase+1) << ".DAT" << endl;
@@ -409,7 +409,7 @@ string SystusWriter::writeModel(Model& model,
     }
 
     if (configuration.systusOutputProduct=="systus"){
-        dat_file_ofs.close();
+        closeFile(dat_file_ofs, dat_path);
     }
     return dat_path;
 }
@@ -3432,7 +3432,7 @@ void SystusWriter::writeMatrixFiles(const SystusModel& systusModel, const int id
             throw ios::failure("Can't open file " + matrixFile + " for writing.");
         }
         ofsMatrixFile << dampingMatrices<<endl;
-        ofsMatrixFile.close();
+        closeFile(ofsMatrixFile, matrixFile);
         filebyAccessId[SystusWriter::DampingAccessId]= systusModel.getName()+"_SC" + to_string(idSubcase+1) + "_DAMGEN";
     }
 
@@ -3447,7 +3447,7 @@ void SystusWriter::writeMatrixFiles(const SystusModel& systusModel, const int id
             throw ios::failure("Can't open file " + matrixFile + " for writing.");
         }
         ofsMatrixFile << massMatrices << endl;
-        ofsMatrixFile.close();
+        closeFile(ofsMatrixFile, matrixFile);
         filebyAccessId[SystusWriter::MassAccessId]= systusModel.getName()+"_SC" + to_string(idSubcase+1) + "_MASGEN";
     }
 
@@ -3462,7 +3462,7 @@ void SystusWriter::writeMatrixFiles(const SystusModel& systusModel, const int id
             throw ios::failure("Can't open file " + matrixFile + " for writing.");
         }
         ofsMatrixFile << stiffnessMatrices <<endl;
-        ofsMatrixFile.close();
+        closeFile(ofsMatrixFile, matrixFile);
         filebyAccessId[SystusWriter::StiffnessAccessId]=systusModel.getName()+"_SC" + to_string(idSubcase+1) + "_STIGEN";
     }
 }
-- 
2.43.0


From 929b2d65994067bd7f0110ef147b2e2e4a5684f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 115/153] fix: no memory address in the comment of the groups
 made for additional masses

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index b22c815..83f66cf 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -927,7 +927,7 @@ void Model::emulateAdditionalMass() {
             cellElementSet->assignMaterial(newMaterial);
             // copy and assign new cellGroup
             ostringstream oss;
-            oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet << " additional rho:" << rho;
+            oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet->bestId() << " additional rho:" << rho;
             const auto& newCellGroup = mesh.createCellGroup(
                     "VAM_" + to_string(newElementSets.size()), Group::NO_ORIGINAL_ID, oss.str());
             cellElementSet->add(*newCellGroup);
-- 
2.43.0


From 3fe81a28f2814f6e8b4ac02af6b782f33bfb1ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:41 +0000
Subject: [PATCH 116/153] fix: cards that name elements may come before them

---
 Nastran/NastranParser.cpp       | 68 +++++++++++++++++++++------------
 Nastran/NastranParser.h         |  7 ++++
 Nastran/NastranTokenizer.cpp    | 14 +++++++
 Nastran/NastranTokenizer.h      | 15 ++++++++
 Optistruct/OptistructParser.cpp |  1 +
 5 files changed, 81 insertions(+), 24 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index f2674b8..a98358e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -576,6 +576,35 @@ void NastranParser::resolveExcitations(Model& model) {
     excitationsAndExciteIds.clear();
 }
 
+void NastranParser::parseCard(NastranTokenizer &tok, Model& model, const string& keyword) {
+    try{
+        auto parser = findCmdParser(keyword);
+        if (parser != nullptr) {
+            (this->*parser)(tok, model);
+
+        } else if (IGNORED_KEYWORDS.find(keyword) != IGNORED_KEYWORDS.end()) {
+            if (model.configuration.logLevel >= LogLevel::TRACE) {
+                cout << "Keyword " << keyword << " ignored." << endl;
+            }
+            tok.skipToNextKeyword();
+
+        } else if (!keyword.empty()) {
+            handleParsingError("Unknown keyword.", tok, model);
+            tok.skipToNextKeyword();
+        }
+
+        //Warning if there are unparsed fields. Skip the empty ones
+        if (!tok.isEmptyUntilNextKeyword()) {
+            handleParsingError("Parsing of line not complete:[" + tok.remainingTextUntilNextKeyword()+"]", tok, model);
+        }
+
+    } catch (std::string&) {
+        // Parsing errors are catched by VegaCommandLine.
+        // If we are not in strict mode, we dismiss this command and continue, hoping for the best.
+        tok.skipToNextKeyword();
+    }
+}
+
 void NastranParser::parseBULKSection(NastranTokenizer &tok, Model& model) {
 
     while (tok.nextSymbolType == NastranTokenizer::SymbolType::SYMBOL_KEYWORD) {
@@ -584,37 +613,27 @@ void NastranParser::parseBULKSection(NastranTokenizer &tok, Model& model) {
         if (keyword == "ENDDATA") {
             break; // what follows does not belong to the model
         }
-        try{
-            auto parser = findCmdParser(keyword);
-            if (parser != nullptr) {
-                (this->*parser)(tok, model);
-
-            } else if (IGNORED_KEYWORDS.find(keyword) != IGNORED_KEYWORDS.end()) {
-                if (model.configuration.logLevel >= LogLevel::TRACE) {
-                    cout << "Keyword " << keyword << " ignored." << endl;
-                }
-                tok.skipToNextKeyword();
-
-            } else if (!keyword.empty()) {
-                handleParsingError("Unknown keyword.", tok, model);
-                tok.skipToNextKeyword();
-            }
-
-            //Warning if there are unparsed fields. Skip the empty ones
-            if (!tok.isEmptyUntilNextKeyword()) {
-                handleParsingError("Parsing of line not complete:[" + tok.remainingTextUntilNextKeyword()+"]", tok, model);
-            }
-
-        } catch (std::string&) {
-            // Parsing errors are catched by VegaCommandLine.
-            // If we are not in strict mode, we dismiss this command and continue, hoping for the best.
+        if (KEYWORDS_ON_ELEMENTS.find(keyword) != KEYWORDS_ON_ELEMENTS.end()) {
+            cardsOnElements.push_back(tok.getCard()); // cards may be in any order
             tok.skipToNextKeyword();
+        } else {
+            parseCard(tok, model, keyword);
         }
         tok.nextLine();
     }
 
 }
 
+void NastranParser::parseCardsOnElements(NastranTokenizer &tok, Model& model) {
+    for (const auto& card : cardsOnElements) {
+        tok.setCard(card);
+        string keyword = tok.nextString(true,"");
+        tok.setCurrentKeyword(keyword);
+        parseCard(tok, model, keyword);
+    }
+    cardsOnElements.clear();
+}
+
 fs::path NastranParser::findModelFile(const string& filename) {
     if (!fs::exists(filename)) {
         throw invalid_argument("Can't find file : " + fs::absolute(filename).string());
@@ -648,6 +667,7 @@ unique_ptr<Model> NastranParser::parse(const ConfigurationParameters& configurat
     }
     tok.bulkSection();
     parseBULKSection(tok, *model);
+    parseCardsOnElements(tok, *model);
     resolveExcitations(*model);
     istream.close();
 
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 764136f..2cf7c9b 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -80,6 +80,7 @@ private:
     std::unordered_map<std::string, Reference<ElementSet>> directMatrixByName;
     std::map<int, int> lseqLoadIdByExciteId; /**< static loads given by LSEQ for each EXCITEID */
     std::vector<std::pair<std::shared_ptr<DynamicExcitation>, int>> excitationsAndExciteIds; /**< known once all the cards are parsed */
+    std::vector<NastranTokenizer::Card> cardsOnElements; /**< parsed once all the elements are known */
     static const std::unordered_map<std::string, NastranAnalysis> ANALYSIS_BY_LABEL;
     static const std::unordered_map<std::string, parseElementFPtr> PARSE_FUNCTION_BY_KEYWORD;
     static const std::unordered_map<std::string, parseElementFPtr> PARSEPARAM_FUNCTION_BY_KEYWORD;
@@ -92,6 +93,8 @@ private:
 
     fs::path findModelFile(const std::string& filename);
     void parseBULKSection(NastranTokenizer &tok, Model& model1);
+    void parseCard(NastranTokenizer &tok, Model& model, const std::string& keyword);
+    void parseCardsOnElements(NastranTokenizer &tok, Model& model);
     void resolveExcitations(Model& model);
 
     void parseExecutiveSection(NastranTokenizer& tok, Model& model, std::map<std::string, std::string>& context);
@@ -900,6 +903,10 @@ private:
     LogLevel logLevel = LogLevel::INFO;
     protected:
     // see also http://www.altairhyperworks.com/hwhelp/Altair/hw12.0/help/hm/hmbat.htm?design_variables.htm
+    /** Cards that name elements, which may come before them **/
+    std::set<std::string> KEYWORDS_ON_ELEMENTS = {
+        "BSURF", "PLOAD1", "PLOAD2", "PLOAD4"
+    };
     std::set<std::string> IGNORED_KEYWORDS = {
         "DCONSTR", "DCONADD", "DESVAR", "DLINK", //nastran optimization keywords
         "DOPTPRM", // Nastran optimization keyword
diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 164b91b..6948ef0 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -279,6 +279,20 @@ void NastranTokenizer::bulkSection() {
 	}
 }
 
+NastranTokenizer::Card NastranTokenizer::getCard() const {
+	return {fileName, lineNumber, currentLine, currentLineVector, leftOutFields};
+}
+
+void NastranTokenizer::setCard(const Card& card) {
+	fileName = card.fileName;
+	lineNumber = card.lineNumber;
+	currentLine = card.line;
+	currentLineVector = card.fields;
+	leftOutFields = card.leftOutFields;
+	currentField = 0;
+	nextSymbolType = SymbolType::SYMBOL_KEYWORD;
+}
+
 void NastranTokenizer::parseParameters() {
 	split(currentLineVector, this->currentLine, boost::is_any_of("\\="));
 }
diff --git a/Nastran/NastranTokenizer.h b/Nastran/NastranTokenizer.h
index 0c8c52f..4a18a40 100644
--- a/Nastran/NastranTokenizer.h
+++ b/Nastran/NastranTokenizer.h
@@ -115,6 +115,15 @@ public:
     };
 
 
+    /** A card of the bulk section, kept in order to be interpreted later **/
+    struct Card {
+        std::string fileName;
+        int lineNumber;
+        std::string line;
+        std::vector<std::string> fields;
+        std::set<size_t> leftOutFields;
+    };
+
     SectionType currentSection;
     SymbolType nextSymbolType;
     std::map<std::pair<CommentType, int>, std::string> labelByCommentTypeAndId;
@@ -136,6 +145,12 @@ public:
      */
     void executiveControlSection();
 
+    /**
+     * The current card, and the way back to its first field.
+     */
+    Card getCard() const;
+    void setCard(const Card&);
+
     /**
      * Try to interpret the next symbol in the Nastran file as an integer
      *  and advances to next symbol.
diff --git a/Optistruct/OptistructParser.cpp b/Optistruct/OptistructParser.cpp
index 9e830ed..63aec14 100644
--- a/Optistruct/OptistructParser.cpp
+++ b/Optistruct/OptistructParser.cpp
@@ -50,6 +50,7 @@ const unordered_map<string, OptistructParser::parseOptistructElementFPtr> Optist
 
 OptistructParser::OptistructParser() :
         nastran::NastranParser() {
+    nastran::NastranParser::KEYWORDS_ON_ELEMENTS.insert({"SET", "SURF"});
     nastran::NastranParser::IGNORED_KEYWORDS.insert(OPTISTRUCT_IGNORED_KEYWORDS.begin(), OPTISTRUCT_IGNORED_KEYWORDS.end());
     nastran::NastranParser::IGNORED_PARAMS.insert(OPTISTRUCT_IGNORED_PARAMS.begin(), OPTISTRUCT_IGNORED_PARAMS.end());
 }
-- 
2.43.0


From e59f79c356a3a8ee2d1497cb17cc6aa6ba3ccba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:04 +0000
Subject: [PATCH 117/153] fix: write the excitation frequencies of FREQ3
 between the modes

---
 Aster/AsterWriter.cpp     | 14 ++++++++++----
 Nastran/NastranParser.cpp |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 6a00a05..db88a86 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -3137,9 +3137,15 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             list_concept_ss << "LSIP" << setfill('0') << setw(4) << frequencyExcit->getId();
             const auto& frequencyExcitBand = static_pointer_cast<BandRange>(frequencyExcit->getValue());
             string concept_name = list_concept_ss.str();
-            string frequencyCount = to_string(frequencyExcitBand->maxsearch);
-            comm_file_ofs << "efreq" << analysis->getId() << " = np.concatenate([np.linspace(x, x+1-1/" << frequencyCount << "," << frequencyCount << ") for x in freqList.Valeurs()])" << endl;
-            comm_file_ofs << concept_name << "= DEFI_LIST_REEL(VALE=efreq" << analysis->getId() << ")" << endl;
+            const string efreqList = "efreq" + to_string(analysis->getId());
+            // Bounds of the subranges: both ends of the band, and the modes that lie between them
+            comm_file_ofs << efreqList << " = [" << frequencyExcitBand->start << "]+[x for x in " << freqList
+                    << " if " << frequencyExcitBand->start << " < x < " << frequencyExcitBand->end << "]+["
+                    << frequencyExcitBand->end << "]" << endl;
+            const int intervals = max(frequencyExcitBand->maxsearch - 1, 1);
+            comm_file_ofs << efreqList << " = sorted(set([a+(b-a)*k/" << intervals << ". for a,b in zip(" << efreqList << "[:-1]," << efreqList << "[1:])"
+                    << " for k in range(" << intervals << ")]+[" << efreqList << "[-1]]))" << endl;
+            comm_file_ofs << concept_name << "= DEFI_LIST_REEL(VALE=" << efreqList << ")" << endl;
             destroyableConcepts.push_back(concept_name);
         }
 
@@ -3163,7 +3169,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             << frequencyExcit->getValue()->getId() << "," << endl;
         } else if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::INTERPOLATE) {
             comm_file_ofs << "                   LIST_FREQ  = LSIP" << setfill('0') << setw(4)
-            << frequencyExcit->getValue()->getId() << "," << endl;
+            << frequencyExcit->getId() << "," << endl;
         } else {
             comm_file_ofs << "                   LIST_FREQ  = LST" << setfill('0') << setw(5)
             << frequencyExcit->getValue()->getId() << "," << endl;
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index a98358e..eb4a304 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1858,7 +1858,7 @@ void NastranParser::parseFREQ3(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("Several excitation frequencies in the same set not supported, only the first ones are used.", tok, model);
     }
     double startf = tok.nextDouble();
-    double endf = tok.nextDouble();
+    double endf = tok.nextDouble(true, startf);
     string type = tok.nextString(true, "LINEAR");
     if (type != "LINEAR")
         handleParsingError("Only LINEAR FREQ3 supported.", tok, model);
-- 
2.43.0


From 9a4e9fe96e09f323061f618047af8d2e1f345339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:04 +0000
Subject: [PATCH 118/153] fix: FREQ4 uses the list of frequencies it defines

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index db88a86..86961b2 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -3166,7 +3166,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
         }
         if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::SPREAD) {
             comm_file_ofs << "                   LIST_FREQ  = LSPR" << setfill('0') << setw(4)
-            << frequencyExcit->getValue()->getId() << "," << endl;
+            << frequencyExcit->getId() << "," << endl;
         } else if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::INTERPOLATE) {
             comm_file_ofs << "                   LIST_FREQ  = LSIP" << setfill('0') << setw(4)
             << frequencyExcit->getId() << "," << endl;
-- 
2.43.0


From 2786651b267828938b964bc50c0429190983574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:04 +0000
Subject: [PATCH 119/153] fix: write the excitation frequencies of FREQ4 around
 each mode, with its defaults

---
 Aster/AsterWriter.cpp     | 20 ++++++++++----------
 Nastran/NastranParser.cpp |  8 ++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 86961b2..574d4bc 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -3121,16 +3121,16 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             list_concept_ss << "LSPR" << setfill('0') << setw(4) << frequencyExcit->getId();
             string concept_name = list_concept_ss.str();
             const auto& frequencyExcitBand = static_pointer_cast<BandRange>(frequencyExcit->getValue());
-            comm_file_ofs << concept_name << "=DEFI_LIST_FREQ(" << endl;
-            comm_file_ofs << "                        DEBUT = " << frequencyExcitBand->start << "," << endl;
-            comm_file_ofs << "                        INTERVALLE = _F(JUSQU_A = " << frequencyExcitBand->end << "," << endl;
-            comm_file_ofs << "                                        NOMBRE = " << frequencyExcitBand->maxsearch << endl;
-            comm_file_ofs << "                                        )," << endl;
-            comm_file_ofs << "                        RAFFINEMENT = _F(LIST_RAFFINE = " << freqList << "," << endl;
-            comm_file_ofs << "                                        CRITERE = 'RELATIF'," << endl;
-            comm_file_ofs << "                                        DISPERSION = " << frequencyExcit->spread << endl;
-            comm_file_ofs << "                                        )," << endl;
-            comm_file_ofs << "                        );" << endl << endl;
+            // The frequencies are spread evenly around each mode of the band, which is one of them
+            const int halfCount = frequencyExcitBand->maxsearch / 2;
+            const string efreqList = "efreq" + to_string(analysis->getId());
+            comm_file_ofs << efreqList << " = sorted(set([x*c for x in " << freqList << " if "
+                    << frequencyExcitBand->start << " <= x <= " << frequencyExcitBand->end << " for c in (";
+            for (int k = -halfCount; k <= halfCount; k++) {
+                comm_file_ofs << (k == 0 ? 1.0 : 1.0 + frequencyExcit->spread * k / halfCount) << ",";
+            }
+            comm_file_ofs << ")]))" << endl;
+            comm_file_ofs << concept_name << "= DEFI_LIST_REEL(VALE=" << efreqList << ")" << endl;
             destroyableConcepts.push_back(concept_name);
         } else if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::INTERPOLATE) {
             ostringstream list_concept_ss;
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index eb4a304..3809dfd 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1882,10 +1882,10 @@ void NastranParser::parseFREQ4(NastranTokenizer& tok, Model& model) {
     if (not objectiveSet->getObjectives().empty()) {
         handleParsingWarning("Several excitation frequencies in the same set not supported, only the first ones are used.", tok, model);
     }
-    double f1 = tok.nextDouble();
-    double f2 = tok.nextDouble();
-    double spread = tok.nextDouble();
-    int nef = tok.nextInt(true, 1);
+    double f1 = tok.nextDouble(true, 0.0);
+    double f2 = tok.nextDouble(true, 1.0E20);
+    double spread = tok.nextDouble(true, 0.10);
+    int nef = tok.nextInt(true, 3);
 
     const auto& bandRange = make_shared<BandRange>(model, f1, nef, f2);
     //spreadRange.setParaX(Function::ParaName::FREQ);
-- 
2.43.0


From 25440b038ed00bd6dbe702c44bf81ab94f7ac504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:43 +0000
Subject: [PATCH 120/153] fix: the NASTRAN writer writes no empty SET

---
 Nastran/NastranWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 645a0f9..3e2a6e7 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -1117,6 +1117,9 @@ string NastranWriter::writeModel(Model& model,
         }
 	}
     for (const auto& nodeGroup : model.mesh.getNodeGroups()) {
+        if (nodeGroup->getNodeIds().empty()) {
+            continue; // a SET can't be empty
+        }
         out << "SET " << nodeGroup->getId() << " = ";
         bool firstNode = true;
         int nodeCount = 1;
@@ -1134,6 +1137,9 @@ string NastranWriter::writeModel(Model& model,
         out << " $ " << nodeGroup->getComment() << endl;
     }
     for (const auto& cellGroup : model.mesh.getCellGroups()) {
+        if (cellGroup->cellIds().empty()) {
+            continue; // a SET can't be empty
+        }
         bool firstCell = true;
         int cellCount = 1;
         out << "SET " << cellGroup->getId() << " = ";
-- 
2.43.0


From 163e82ebdf096173bfa65f95d132e08dad964f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:43 +0000
Subject: [PATCH 121/153] fix: a CONM1 that is not understood leaves no cell
 behind

---
 Nastran/NastranParser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 3809dfd..4336d8c 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1269,11 +1269,6 @@ void NastranParser::parseCONM1(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("coordinate system CID=-1 not supported and dismissed.", tok, model);
         ci = 0;
     }
-    pos_t cpos = ci == 0 ? CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID : model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, ci));
-    const auto cellPosition = model.mesh.addCell(eid, CellType::POINT1, { g }, false, cpos);
-    auto mnodale = model.mesh.createCellGroup("CONM1_" + to_string(eid), CellGroup::NO_ORIGINAL_ID, "NODAL MASS");
-    mnodale->addCellPosition(cellPosition);
-
     const auto& nodalMassMatrix = make_shared<DiscretePoint>(model, MatrixType::SYMMETRIC, eid);
 
     for (dof_int row = 0; row < 6; row++) {
@@ -1290,6 +1285,11 @@ void NastranParser::parseCONM1(NastranTokenizer& tok, Model& model) {
         }
     }
 
+    // The card is fully understood: its cell can be added
+    pos_t cpos = ci == 0 ? CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID : model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, ci));
+    const auto cellPosition = model.mesh.addCell(eid, CellType::POINT1, { g }, false, cpos);
+    auto mnodale = model.mesh.createCellGroup("CONM1_" + to_string(eid), CellGroup::NO_ORIGINAL_ID, "NODAL MASS");
+    mnodale->addCellPosition(cellPosition);
     nodalMassMatrix->add(*mnodale);
     nodalMassMatrix->setInputContext(tok.getInputContext());
     model.add(nodalMassMatrix);
-- 
2.43.0


From 53f7204441034b77fe7c237556a1e7f69f9dfed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:11 +0000
Subject: [PATCH 122/153] fix: an invalid command line ends with its exit code,
 not as a crash

---
 Commandline/VegaCommandLine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index cd846de..26d564c 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -464,7 +464,7 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
 #if Backtrace_FOUND
     signal(SIGSEGV, handler);
 #endif
-    LogLevel logLevel = LogLevel::TRACE;
+    LogLevel logLevel = LogLevel::INFO; // until the options are known
     try {
         string config_file;
 
@@ -637,6 +637,9 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
         if (result == ExitCode::OK && configuration.runSolver) {
             result = runSolver(configuration, modelFile);
         }
+    } catch (po::error &e) {   // Options that can't be understood, on the command line or in the configuration file.
+        cerr  << endl << "Invalid option: " << e.what()  << endl;
+        return ExitCode::INVALID_COMMAND_LINE;
     } catch (invalid_argument &e) {
         if (logLevel >= LogLevel::DEBUG) {
             throw;
-- 
2.43.0


From 97903798d43085418b6079a71cd4277ceebf8309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:11 +0000
Subject: [PATCH 123/153] fix: no crash without a home directory, or with a
 configuration file of another home

---
 Commandline/VegaCommandLine.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index 26d564c..7863392 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -445,14 +445,17 @@ void VegaCommandLine::printHeader() {
 string VegaCommandLine::expand_user(string path) {
     // http://stackoverflow.com/a/4891126
     if (not path.empty() and path[0] == '~') {
-        assert(path.size() == 1 or path[1] == '/');  // or other error handling
+        if (path.size() > 1 and path[1] != '/') {
+            return path; // home of another user, or a plain file name
+        }
         char const* home = getenv("HOME");
         if (home || (home = getenv("USERPROFILE"))) {
             path.replace(0, 1, home);
         } else {
             char const *hdrive = getenv("HOMEDRIVE"), *hpath = getenv("HOMEPATH");
-            assert(hdrive);  // or other error handling
-            assert(hpath);
+            if (hdrive == nullptr or hpath == nullptr) {
+                return path; // no home
+            }
             path.replace(0, 1, string(hdrive) + hpath);
         }
     }
-- 
2.43.0


From 06fc4df3340789ec27077aa6b2134644284592ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:11 +0000
Subject: [PATCH 124/153] fix: a directory is not an input file

---
 Commandline/VegaCommandLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index 7863392..e60de38 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -616,7 +616,7 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
                 return ExitCode::NO_INPUT_FILE;
             }
         }
-        if (!fs::exists(configuration.inputFile)) {
+        if (!fs::exists(configuration.inputFile) or fs::is_directory(configuration.inputFile)) {
             cout << "Input file" << configuration.inputFile << " not found." << endl << endl;
             return ExitCode::NO_INPUT_FILE;
         }
-- 
2.43.0


From 0c184ba9bf3da806cc1acdd7b0ff3893d4dde78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:11 +0000
Subject: [PATCH 125/153] fix: an output directory that can't be created ends
 with its exit code

---
 Commandline/VegaCommandLine.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index e60de38..13153ed 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -621,9 +621,10 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
             return ExitCode::NO_INPUT_FILE;
         }
 
-        if (!fs::exists(configuration.outputPath)) {
-            bool create = fs::create_directories(configuration.outputPath);
-            if (!create) {
+        if (!fs::is_directory(configuration.outputPath)) {
+            boost::system::error_code error;
+            fs::create_directories(configuration.outputPath, error);
+            if (!fs::is_directory(configuration.outputPath)) {
                 cerr << "Output Directory " + configuration.outputPath + " can't be created."
                         << endl;
                 return ExitCode::OUTPUT_DIR_NOT_CREATED;
-- 
2.43.0


From eb17bb616afdee85f6fa5accebd70fac9bb25951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:11 +0000
Subject: [PATCH 126/153] fix: mesh-at-least and strict exclude each other

---
 Commandline/VegaCommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index 13153ed..dc79582 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -180,6 +180,7 @@ ConfigurationParameters VegaCommandLine::readCommandLineParameters(const po::var
             throw invalid_argument("only one between mesh-at-least or best-effort "
                     " parameter can be specified at once.");
         }
+        hasParamMeshAtLeast = true;
         translationMode = ConfigurationParameters::TranslationMode::MESH_AT_LEAST;
     }
     if (vm.count("strict")) {
-- 
2.43.0


From ebaca2745859e441eb3a2aed1749e2a9b265a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:11 +0000
Subject: [PATCH 127/153] fix: the NASTRAN options are accepted in the
 configuration file and shown by the help

---
 Commandline/VegaCommandLine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index dc79582..46ea7ac 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -556,7 +556,7 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
         cmdline_options.add(commandLine).add(generic).add(nastranOptions).add(systusOptions).add(hidden);
 
         po::options_description config_file_options;
-        config_file_options.add(generic).add(systusOptions).add(hidden);
+        config_file_options.add(generic).add(nastranOptions).add(systusOptions).add(hidden);
 
         po::positional_options_description p;
         p.add("input-file", 1);
@@ -564,7 +564,7 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
         p.add("output-format", 1);
 
         po::options_description visible("Options");
-        visible.add(commandLine).add(generic).add(systusOptions);
+        visible.add(commandLine).add(generic).add(nastranOptions).add(systusOptions);
 
         po::variables_map vm;
         store(po::command_line_parser(ac, av).options(cmdline_options).positional(p).run(), vm);
-- 
2.43.0


From 8a20e8c5f8e4b65791c05cbc4ace7caf99e8c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:11 +0000
Subject: [PATCH 128/153] fix: an unknown verbosity is refused

---
 Commandline/VegaCommandLine.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index 46ea7ac..3f1409c 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -134,10 +134,11 @@ ConfigurationParameters VegaCommandLine::readCommandLineParameters(const po::var
         string verbosity= vm["verbosity"].as<string>();
         boost::to_upper(verbosity);
         if (verbosity=="ERROR") logLevel = LogLevel::ERROR;
-        if (verbosity=="WARN") logLevel = LogLevel::WARN;
-        if (verbosity=="INFO") logLevel = LogLevel::INFO;
-        if (verbosity=="DEBUG") logLevel = LogLevel::DEBUG;
-        if (verbosity=="TRACE") logLevel = LogLevel::TRACE;
+        else if (verbosity=="WARN") logLevel = LogLevel::WARN;
+        else if (verbosity=="INFO") logLevel = LogLevel::INFO;
+        else if (verbosity=="DEBUG") logLevel = LogLevel::DEBUG;
+        else if (verbosity=="TRACE") logLevel = LogLevel::TRACE;
+        else throw invalid_argument("Verbosity must be one of ERROR, WARN, INFO, DEBUG or TRACE.");
     }
 
     if (vm.count("debug") > 0) {
-- 
2.43.0


From 51171728c019260a2b8b88a4db27e58de03aa846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:11 +0000
Subject: [PATCH 129/153] fix: exit code 4 of code_aster is told from the other
 ones

---
 Aster/AsterRunner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterRunner.cpp b/Aster/AsterRunner.cpp
index c9e9ebe..51fa569 100644
--- a/Aster/AsterRunner.cpp
+++ b/Aster/AsterRunner.cpp
@@ -110,7 +110,7 @@ Runner::ExitCode AsterRunner::execSolver(const ConfigurationParameters &configur
                 cout << "Tests OK." << endl;
             }
         }
-    } else if (i == 4) { //handle the case of code_aster exit code 4
+    } else if (((i & 0xFF00) >> 8) == 4) { //handle the case of code_aster exit code 4
         exitCode = ExitCode::TRANSLATION_SYNTAX_ERROR;
     }
     return exitCode;
-- 
2.43.0


From 1523b93706ec7fd613a57c20b8396911334f3d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:30 +0000
Subject: [PATCH 130/153] fix: solvers run on files and in folders of any name

---
 Abstract/SolverInterfaces.cpp |  9 +++++++++
 Abstract/SolverInterfaces.h   |  4 ++++
 Aster/AsterRunner.cpp         |  4 ++--
 Nastran/NastranRunner.cpp     |  6 +++---
 Systus/SystusRunner.cpp       | 12 ++++++------
 5 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index 3264ef3..d94ecc7 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -24,6 +24,7 @@
 #include "SolverInterfaces.h"
 #include "Model.h"
 #include "ConfigurationParameters.h"
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/filesystem.hpp>
 #include <stdio.h>
 
@@ -244,6 +245,14 @@ void Runner::deletePreviousResultFiles(string currentModel, const vector<string>
     }
 }
 
+string Runner::quote(const string& fileName) const {
+#if defined(__unix__)
+    return "'" + boost::algorithm::replace_all_copy(fileName, "'", "'\\''") + "'";
+#else
+    return '"' + fileName + '"';
+#endif
+}
+
 Runner::ExitCode Runner::convertExecResult(const int exitCode) const {
     if (exitCode == 0) {
         return ExitCode::OK;
diff --git a/Abstract/SolverInterfaces.h b/Abstract/SolverInterfaces.h
index 68f13ff..2a871d9 100644
--- a/Abstract/SolverInterfaces.h
+++ b/Abstract/SolverInterfaces.h
@@ -197,6 +197,10 @@ protected:
 			const std::vector<std::string> extensions);
 	std::string stripExtension(const std::string& currentModel) const;
 	ExitCode convertExecResult(const int exitCode) const;
+	/**
+	 * A file name as one word of a shell command.
+	 */
+	std::string quote(const std::string& fileName) const;
 };
 
 /**
diff --git a/Aster/AsterRunner.cpp b/Aster/AsterRunner.cpp
index 51fa569..ce3f19f 100644
--- a/Aster/AsterRunner.cpp
+++ b/Aster/AsterRunner.cpp
@@ -45,10 +45,10 @@ Runner::ExitCode AsterRunner::execSolver(const ConfigurationParameters &configur
     string command = configuration.solverCommand.empty() ? "as_run" : configuration.solverCommand;
     fs::path modelFilePath(modelFile);
     string fname = modelFilePath.stem().string();
-    command = command + " " + modelFile + " > " + fname + ".stdout 2> " + fname + ".stderr";
+    command = command + " " + quote(modelFile) + " > " + quote(fname + ".stdout") + " 2> " + quote(fname + ".stderr");
 
     if (configuration.outputPath != ".") {
-        command = "cd " + configuration.outputPath + " && " + command;
+        command = "cd " + quote(configuration.outputPath) + " && " + command;
     }
     vector<string> fileList = { ".mess", ".resu", ".rmed", ".stdout", ".stderr" };
     deletePreviousResultFiles(modelFile, fileList);
diff --git a/Nastran/NastranRunner.cpp b/Nastran/NastranRunner.cpp
index 2a662b8..818b621 100644
--- a/Nastran/NastranRunner.cpp
+++ b/Nastran/NastranRunner.cpp
@@ -41,14 +41,14 @@ Runner::ExitCode NastranRunner::execSolver(const ConfigurationParameters &config
         string modelFile) {
     fs::path modelFilePath(modelFile);
     string fname = modelFilePath.stem().string();
-    string command = "nastran " + modelFilePath.filename().string() + " > " + fname + ".stdout 2> " + fname
-            + ".stderr";
+    string command = "nastran " + quote(modelFilePath.filename().string()) + " > " + quote(fname + ".stdout")
+            + " 2> " + quote(fname + ".stderr");
     fs::path outputFsPath(configuration.outputPath);
     cout << configuration.outputPath << endl;
     if (!fs::is_directory(outputFsPath))
         return Runner::ExitCode::SOLVER_NOT_FOUND;
     if (configuration.outputPath != ".")
-        command = "cd " + configuration.outputPath + " && " + command;
+        command = "cd " + quote(configuration.outputPath) + " && " + command;
 
     vector<string> fileList = { ".DBALL", ".f04", ".f06", ".IFPDAT", ".log", ".MASTER", ".stdout",
             ".stderr" };
diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index 9950680..6c51a29 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -64,10 +64,10 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
 
     ExitCode exitCode;
     if (configuration.systusOutputProduct=="systus") {
-        string command = "systus -batch -exec " + modelFile + " > " + fname + ".stdout 2> " + fname
-                + ".stderr";
+        string command = "systus -batch -exec " + quote(modelFile) + " > " + quote(fname + ".stdout")
+                + " 2> " + quote(fname + ".stderr");
         if (configuration.outputPath != ".")
-            command = "cd " + configuration.outputPath + " && " + command;
+            command = "cd " + quote(configuration.outputPath) + " && " + command;
         //run command
         int i = system(command.c_str());
         if (i != 0) {
@@ -88,10 +88,10 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             cout << "Found DAT file:" << datFilename << endl;
             //check if it contains nook
             string datFileStr = (outputFsPath / fs::path(datFilename)).string();
-            string command = "systus -batch -exec " + datFilename + " > " + fname + ".stdout 2> " + fname
-                    + ".stderr";
+            string command = "systus -batch -exec " + quote(datFilename) + " > " + quote(fname + ".stdout")
+                    + " 2> " + quote(fname + ".stderr");
             if (configuration.outputPath != ".")
-                command = "cd " + configuration.outputPath + " && " + command;
+                command = "cd " + quote(configuration.outputPath) + " && " + command;
             //run command
             int i = system(command.c_str());
             if (i != 0) {
-- 
2.43.0


From 34c0792533792562ee7894a3ee885abd6ad7f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:54 +0000
Subject: [PATCH 131/153] fix: the Systus runner leaves alone the files of
 studies whose name only begins like its own

---
 Systus/SystusRunner.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index 6c51a29..0d228a5 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -39,7 +39,12 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
 
     fs::path modelFilePath(modelFile);
     string fname = modelFilePath.stem().string();
-    string fnamePrefix = fname.substr(0, fname.find("_ALL"));
+    string fnamePrefix = fname.substr(0, fname.rfind("_ALL"));
+    // Files of this study: its name, followed by an extension or a suffix
+    const auto& isOfStudy = [&fnamePrefix](const string& filename) {
+        return boost::algorithm::starts_with(filename, fnamePrefix)
+                && (filename[fnamePrefix.size()] == '.' || filename[fnamePrefix.size()] == '_');
+    };
 
     fs::path outputFsPath(configuration.outputPath);
     cout << configuration.outputPath << endl;
@@ -50,7 +55,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
     for (fs::directory_iterator it(outputFsPath); it != fs::directory_iterator(); it++) {
         if (fs::is_regular_file(it->status())) {
             string filename = it->path().filename().string();
-            if (filename.find(fnamePrefix) == 0) {
+            if (isOfStudy(filename)) {
                 if (boost::algorithm::ends_with(filename, ".TIT")
                         or boost::algorithm::ends_with(filename, ".fdb")
                         or boost::algorithm::ends_with(filename, ".RESU")) {
@@ -83,7 +88,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             string datFilename = it2->path().filename().string();
             if (not boost::algorithm::ends_with(datFilename, ".DAT"))
                 continue;
-            if (not boost::algorithm::starts_with(datFilename, fnamePrefix))
+            if (not isOfStudy(datFilename))
                 continue;
             cout << "Found DAT file:" << datFilename << endl;
             //check if it contains nook
@@ -128,7 +133,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
                 string filename2 = it2->path().filename().string();
                 if (not boost::algorithm::ends_with(filename2, ".TIT"))
                     continue;
-                if (not boost::algorithm::starts_with(filename2, fnamePrefix))
+                if (not isOfStudy(filename2))
                     continue;
                 foundTIT = true;
                 break;
@@ -140,7 +145,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
                 string filename2 = it2->path().filename().string();
                 if (not boost::algorithm::ends_with(filename2, ".fdb"))
                     continue;
-                if (not boost::algorithm::starts_with(filename2, fnamePrefix))
+                if (not isOfStudy(filename2))
                     continue;
                 foundFDB = true;
                 break;
@@ -156,7 +161,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             string resuFilename = it2->path().filename().string();
             if (not boost::algorithm::ends_with(resuFilename, ".RESU"))
                 continue;
-            if (not boost::algorithm::starts_with(resuFilename, fnamePrefix))
+            if (not isOfStudy(resuFilename))
                 continue;
             cout << "Found RESU file:" << resuFilename << endl;
             //check if it contains nook
-- 
2.43.0


From f20653b12498d0912a1d49a043b65908d36fdcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:54 +0000
Subject: [PATCH 132/153] fix: an error of any Topaze computation is seen, not
 only of the last one

---
 Systus/SystusRunner.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index 0d228a5..be760a0 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -51,6 +51,23 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
     if (!fs::is_directory(outputFsPath))
         return Runner::ExitCode::SOLVER_NOT_FOUND;
 
+    // test if any error occurred during the last computation
+    const string outputFileStr = (outputFsPath / fs::path(fname + ".stdout")).string();
+    const auto& errorInOutput = [&outputFileStr]() {
+        ifstream outputFile(outputFileStr);
+        string line;
+        int lineNumber = 0;
+        bool result = false;
+        while (getline(outputFile, line)) {
+            lineNumber += 1;
+            if (line.find("ERROR") != string::npos && line.find("NO ERROR") == string::npos) {
+                cerr << "Error found : line " << lineNumber << " file: " << outputFileStr << endl;
+                result = true;
+            }
+        }
+        return result;
+    };
+
     // delete previous results
     for (fs::directory_iterator it(outputFsPath); it != fs::directory_iterator(); it++) {
         if (fs::is_regular_file(it->status())) {
@@ -67,7 +84,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
         }
     }
 
-    ExitCode exitCode;
+    ExitCode exitCode = ExitCode::SOLVER_RESULT_NOT_FOUND; // until something is run
     if (configuration.systusOutputProduct=="systus") {
         string command = "systus -batch -exec " + quote(modelFile) + " > " + quote(fname + ".stdout")
                 + " 2> " + quote(fname + ".stderr");
@@ -81,6 +98,8 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             cout << "Command " << command << " ended with exit code " << i << endl;
         }
         exitCode = convertExecResult(i);
+        if (errorInOutput())
+            exitCode = Runner::ExitCode::SOLVER_EXIT_NOT_ZERO;
     } else {
         for (fs::directory_iterator it2( outputFsPath ); it2 != fs::directory_iterator(); it2++ ) {
             if( !fs::is_regular_file( it2->status() ) )
@@ -105,24 +124,13 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
                 cout << "Command " << command << " ended with exit code " << i << endl;
             }
             exitCode = convertExecResult(i);
+            if (exitCode == Runner::ExitCode::OK && errorInOutput())
+                exitCode = Runner::ExitCode::SOLVER_EXIT_NOT_ZERO;
             if (exitCode != Runner::ExitCode::OK)
                 return exitCode;
         }
     }
 
-    // test if any error occurred during computation
-    string outputFileStr = (outputFsPath / fs::path(fname + ".stdout")).string();
-    ifstream outputFile(outputFileStr);
-    string line;
-    int lineNumber = 0;
-    while (getline(outputFile, line)) {
-        lineNumber += 1;
-        if (line.find("ERROR") != string::npos && line.find("NO ERROR") == string::npos) {
-            cerr << "Error found : line " << lineNumber << " file: " << outputFileStr << endl;
-            exitCode = Runner::ExitCode::SOLVER_EXIT_NOT_ZERO;
-        }
-    }
-
     // test if result files exist
     if (exitCode == Runner::ExitCode::OK) {
         if (configuration.systusOutputProduct=="systus") {
-- 
2.43.0


From 8b10cf39137ea2275f377fa8f428824abfa1e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:02 +0000
Subject: [PATCH 133/153] fix: results of a subcase which the model does not
 have are discarded instead of ending the translation

---
 ResultReaders/F06Parser.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 54c5288..592f974 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -371,8 +371,9 @@ int F06Parser::addAssertionsToModel(int currentSubcase, double loadStep, Model &
 	shared_ptr<Analysis> analysis;
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
 	} else if (not model.analyses.empty()) {
@@ -441,15 +442,16 @@ int F06Parser::addComplexAssertionsToModel(int currentSubCase, double frequency,
 	shared_ptr<Analysis> analysis;
 	if (currentSubCase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubCase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubCase << " in model." << endl;
 		}
-	} else {
+	} else if (not model.analyses.empty()) {
 		// LD If no subcase indicated, the first one is used.
 		// FIXME: what if the model don't have an analysis and the default one is
 		// created inside the finish()? GC
-		analysis = *model.analyses.begin();
+		analysis = model.analyses.first();
 	}
 	for (const auto& assertion : assertions) {
 		if (analysis != nullptr) {
@@ -474,8 +476,9 @@ int F06Parser::addVonMisesAssertionsToModel(int currentSubcase, Model &model,
 	shared_ptr<Analysis> analysis;
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
 	} else if (not model.analyses.empty()) {
-- 
2.43.0


From 898bfa166463836c37d1c3c90fdb17ea97f206bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:02 +0000
Subject: [PATCH 134/153] fix: the displacements which follow those of scalar
 points are read

---
 ResultReaders/F06Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 592f974..db5c5e4 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -62,7 +62,8 @@ int F06Parser::readDisplacementSection(int currentSubCase, Model& model,
 				vector<string> tokens;
 				copy(istream_iterator<string>(istringLine), istream_iterator<string>(),
 						back_inserter(tokens));
-				if (tokens.size() != 8)
+				const bool isScalarPoint = tokens.size() > 2 and tokens[1] == "S"; // up to six values, of following points
+				if (tokens.size() != 8 and not isScalarPoint)
 					break;
 
 				int nodeId = stoi(tokens[0]);
-- 
2.43.0


From 50687ccc99959948701bd89be768c803e6c7edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:02 +0000
Subject: [PATCH 135/153] fix: the complex displacements of a point are turned
 from its displacement system, as the real ones are

---
 ResultReaders/F06Parser.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index db5c5e4..ef58a28 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -233,11 +233,36 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
             } else {
                 objectiveSet = model.getOrCreateObjectiveSet(currentSubCase, ObjectiveSet::Type::ASSERTION);
             }
+			VectorialValue realParts[2] = {
+					VectorialValue(stod(tokens[3]), stod(tokens[4]), stod(tokens[5])),
+					VectorialValue(stod(tokens[6]), stod(tokens[7]), stod(tokens[8]))
+			};
+			VectorialValue imagParts[2] = {
+					VectorialValue(stod(tokens[9]), stod(tokens[10]), stod(tokens[11])),
+					VectorialValue(stod(tokens[12]), stod(tokens[13]), stod(tokens[14]))
+			};
+			const Node& node = model.mesh.findNode(model.mesh.findNodePosition(nodeId));
+			if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+				const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+				coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
+				for (int i = 0; i < 2; i++) {
+					realParts[i] = coordSystem->vectorToGlobal(realParts[i]);
+					imagParts[i] = coordSystem->vectorToGlobal(imagParts[i]);
+				}
+			}
+			const double reals[6] = {
+					realParts[0].x(), realParts[0].y(), realParts[0].z(),
+					realParts[1].x(), realParts[1].y(), realParts[1].z(),
+			};
+			const double imags[6] = {
+					imagParts[0].x(), imagParts[0].y(), imagParts[0].z(),
+					imagParts[1].x(), imagParts[1].y(), imagParts[1].z(),
+			};
 			for (dof_int i = 0; i < 6; i++) {
-				double real = stod(tokens[3 + i]);
+				double real = reals[i];
 				if (abs(real) < 1e-12)
 					real = 0;
-				double imag = stod(tokens[9 + i]);
+				double imag = imags[i];
 				if (abs(imag) < 1e-12)
 					imag = 0;
 				complex<double> value(real, imag);
-- 
2.43.0


From 2891033a05881e5909f70b950321e3cc65230312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:45 +0000
Subject: [PATCH 136/153] fix: complex displacements given by magnitude and
 phase are read as such

---
 ResultReaders/F06Parser.cpp | 40 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index ef58a28..d596e17 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -20,6 +20,8 @@
 #include <string>
 #include <stdlib.h>
 #include <exception>
+#include <cmath>
+#include <complex>
 #include <boost/algorithm/string.hpp>
 #include <ciso646>
 #include "../Abstract/Model.h"
@@ -195,9 +197,12 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
 		vector<shared_ptr<Assertion>>& assertions, double frequency) {
 	string currentLine;
 	int subcase_id = NO_SUBCASE;
+	bool isPolar = false;
 	try {
 
 		while (this->readLine(istream, currentLine)) {
+			if (currentLine.find("(MAGNITUDE/PHASE)") != string::npos)
+				isPolar = true;
 			size_t orderPosition =
 					currentLine.find(
 							"POINT ID.   TYPE          T1             T2             T3             R1             R2             R3");
@@ -233,31 +238,28 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
             } else {
                 objectiveSet = model.getOrCreateObjectiveSet(currentSubCase, ObjectiveSet::Type::ASSERTION);
             }
-			VectorialValue realParts[2] = {
-					VectorialValue(stod(tokens[3]), stod(tokens[4]), stod(tokens[5])),
-					VectorialValue(stod(tokens[6]), stod(tokens[7]), stod(tokens[8]))
-			};
-			VectorialValue imagParts[2] = {
-					VectorialValue(stod(tokens[9]), stod(tokens[10]), stod(tokens[11])),
-					VectorialValue(stod(tokens[12]), stod(tokens[13]), stod(tokens[14]))
-			};
+			double reals[6];
+			double imags[6];
+			for (dof_int i = 0; i < 6; i++) {
+				reals[i] = stod(tokens[3 + i]);
+				imags[i] = stod(tokens[9 + i]);
+				if (isPolar) {
+					const complex<double> value = polar(reals[i], imags[i] * M_PI / 180.);
+					reals[i] = value.real();
+					imags[i] = value.imag();
+				}
+			}
 			const Node& node = model.mesh.findNode(model.mesh.findNodePosition(nodeId));
 			if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
 				const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
 				coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
-				for (int i = 0; i < 2; i++) {
-					realParts[i] = coordSystem->vectorToGlobal(realParts[i]);
-					imagParts[i] = coordSystem->vectorToGlobal(imagParts[i]);
+				for (double* values : {reals, reals + 3, imags, imags + 3}) {
+					const VectorialValue& global = coordSystem->vectorToGlobal(VectorialValue(values[0], values[1], values[2]));
+					values[0] = global.x();
+					values[1] = global.y();
+					values[2] = global.z();
 				}
 			}
-			const double reals[6] = {
-					realParts[0].x(), realParts[0].y(), realParts[0].z(),
-					realParts[1].x(), realParts[1].y(), realParts[1].z(),
-			};
-			const double imags[6] = {
-					imagParts[0].x(), imagParts[0].y(), imagParts[0].z(),
-					imagParts[1].x(), imagParts[1].y(), imagParts[1].z(),
-			};
 			for (dof_int i = 0; i < 6; i++) {
 				double real = reals[i];
 				if (abs(real) < 1e-12)
-- 
2.43.0


From 21e6770eb64a420d553b4c4efb1c44a29b74591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:45 +0000
Subject: [PATCH 137/153] fix: a page header of nine words is not a complex
 displacement

---
 ResultReaders/F06Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index d596e17..343b6f3 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -220,7 +220,7 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
 			vector<string> tokens;
 			copy(istream_iterator<string>(istringLine), istream_iterator<string>(),
 					back_inserter(tokens));
-			if (tokens.size() != 9)
+			if (tokens.size() != 9 or currentLine[0] == '1' /* page header */)
 				break;
 
 			this->readLine(istream, currentLine);
-- 
2.43.0


From 637d34d36339ade275b07f5b603fd84453f9e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:46 +0000
Subject: [PATCH 138/153] fix: stresses after a page header with a subtitle are
 read

---
 ResultReaders/F06Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 343b6f3..00dba21 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -338,8 +338,8 @@ int F06Parser::readStressesForSolidsSection(int currentSubCase, Model& model,
                     // PAGE should only happen between nodes
                     this->readLine(istream, currentLine);
                     if (currentLine[0] == '1' and currentLine.find("PAGE") != string::npos) {
-                        for (int i = 1; i < 5; i++) {  // skip page header
-                            this->readLine(istream, currentLine);
+                        // skip page header (there may be a subtitle)
+                        while (this->readLine(istream, currentLine) and currentLine.find("ELEMENT-ID") == string::npos) {
                         }
                         nodePos--;
                         break;
-- 
2.43.0


From 8ef5c1410aff0a53eeca39ba70d183c0e17e8ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:16 +0000
Subject: [PATCH 139/153] fix: PARAM WTMASS multiplies the moments and products
 of inertia of CONM2, as its mass

---
 Abstract/Element.cpp      |  8 ++++++--
 Abstract/Element.h        |  5 +++++
 Aster/AsterWriter.cpp     |  8 +++++---
 Nastran/NastranWriter.cpp | 13 +++++++------
 Systus/SystusWriter.cpp   |  5 +++--
 5 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index b294437..93cca24 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -934,13 +934,17 @@ NodalMass::NodalMass(Model& model, double m, double ixx, double iyy, double izz,
 				ixy), iyz(iyz), ixz(ixz), ex(ex), ey(ey), ez(ez) {
 }
 
-double NodalMass::getMass() const {
+double NodalMass::getMassMultiplier(const Model& model) {
 	double mass_multiplier = 1.0;
 	if (model.contains(ModelParameter::MASS_OVER_FORCE_MULTIPLIER)) {
 		mass_multiplier = stod(model.getParameter(ModelParameter::MASS_OVER_FORCE_MULTIPLIER));
 		assert(!is_zero(mass_multiplier));
 	}
-	return m * mass_multiplier;
+	return mass_multiplier;
+}
+
+double NodalMass::getMass() const {
+	return m * getMassMultiplier(model);
 }
 
 bool NodalMass::hasTranslations() const {
diff --git a/Abstract/Element.h b/Abstract/Element.h
index afc0402..82d1415 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -535,6 +535,11 @@ class NodalMass: public CellElementSet {
 	 */
 	double getMassAsForce() const;
 
+	/**
+	 * Factor of the mass and of the moments and products of inertia
+	 */
+	static double getMassMultiplier(const Model&);
+
 	DOFS getDOFSForNode(const pos_t nodePosition) const override final;
 	bool hasTranslations() const;
 	bool hasRotations() const;
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 574d4bc..374a148 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1229,10 +1229,12 @@ void AsterWriter::writeAffeCaraElem() {
 					writeCellContainer(static_pointer_cast<CellContainer>(nodalMass));
 					comm_file_ofs << endl;
 					if (nodalMass->hasRotations()) {
+                        const double multiplier = NodalMass::getMassMultiplier(asterModel->model);
                         comm_file_ofs << "                                CARA='M_TR_D_N',VALE=("
-                                << nodalMass->getMass() << "," << nodalMass->ixx << ","
-                                << nodalMass->iyy << "," << nodalMass->izz << "," << nodalMass->ixy
-                                << "," << nodalMass->iyz << "," << nodalMass->ixz << ","
+                                << nodalMass->getMass() << "," << nodalMass->ixx * multiplier << ","
+                                << nodalMass->iyy * multiplier << "," << nodalMass->izz * multiplier << ","
+                                << nodalMass->ixy * multiplier << "," << nodalMass->iyz * multiplier << ","
+                                << nodalMass->ixz * multiplier << ","
                                 << nodalMass->ex << "," << nodalMass->ey << "," << nodalMass->ez
                                 << "),)," << endl;
 					} else {
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 3e2a6e7..5f360fa 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -1018,6 +1018,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
         const auto& mass = static_pointer_cast<const NodalMass>(elementSet);
         for (const pos_t cellPosition: mass->cellPositions()) {
             const Cell& cell = model.mesh.findCell(cellPosition);
+            const double multiplier = NodalMass::getMassMultiplier(model);
             Line conm2("CONM2");
             conm2.add(mass->bestId());
             conm2.add(cell.nodeIds.front());
@@ -1027,12 +1028,12 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             conm2.add(mass->ey);
             conm2.add(mass->ez);
             conm2.add();
-            conm2.add(mass->ixx);
-            conm2.add(-mass->ixy);
-            conm2.add(mass->iyy);
-            conm2.add(-mass->ixz);
-            conm2.add(-mass->iyz);
-            conm2.add(mass->izz);
+            conm2.add(mass->ixx * multiplier);
+            conm2.add(-mass->ixy * multiplier);
+            conm2.add(mass->iyy * multiplier);
+            conm2.add(-mass->ixz * multiplier);
+            conm2.add(-mass->iyz * multiplier);
+            conm2.add(mass->izz * multiplier);
             out << conm2;
             elementSet->markAsWritten();
         }
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 51bc80f..8f5d5bc 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -3112,9 +3112,10 @@ void SystusWriter::writeMasses(const SystusModel &systusModel, ostream& out) {
                 handleWritingWarning("Offset not implemented and dismissed.");
             }
             if (!is_zero(nodalMass->ixx) || !is_zero(nodalMass->iyy) || !is_zero(nodalMass->izz)){
+                const double multiplier = NodalMass::getMassMultiplier(systusModel.model);
                 out << "VALUES 6 " << nodalMass->getMass() << " " << nodalMass->getMass() << " "
-                        << nodalMass->getMass() << " " << nodalMass->ixx << " " << nodalMass->iyy
-                        << " " << nodalMass->izz;
+                        << nodalMass->getMass() << " " << nodalMass->ixx * multiplier << " "
+                        << nodalMass->iyy * multiplier << " " << nodalMass->izz * multiplier;
             }else{
                 out << "VALUES 3 " << nodalMass->getMass() << " " << nodalMass->getMass() << " "
                         << nodalMass->getMass();
-- 
2.43.0


From f60b4cc691bdf51f80849ee3ff1e8495a70a7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:54 +0000
Subject: [PATCH 140/153] fix: PARAM WTMASS multiplies the masses of CONM1 and
 CMASS2

---
 Nastran/NastranParser.cpp          | 3 ++-
 Nastran/NastranParser.h            | 3 ++-
 Nastran/NastranParser_geometry.cpp | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 4336d8c..343a8bf 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1270,6 +1270,7 @@ void NastranParser::parseCONM1(NastranTokenizer& tok, Model& model) {
         ci = 0;
     }
     const auto& nodalMassMatrix = make_shared<DiscretePoint>(model, MatrixType::SYMMETRIC, eid);
+    const double multiplier = NodalMass::getMassMultiplier(model);
 
     for (dof_int row = 0; row < 6; row++) {
         const DOF rowdof = DOF::findByPosition(row);
@@ -1278,7 +1279,7 @@ void NastranParser::parseCONM1(NastranTokenizer& tok, Model& model) {
             if (tok.isEmptyUntilNextKeyword()) {
                 break;
             }
-            const double value = tok.nextDouble(true, 0.0);
+            const double value = tok.nextDouble(true, 0.0) * multiplier;
             if (not is_zero(value)) {
                 nodalMassMatrix->addMass(rowdof, coldof, value);
             }
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 2cf7c9b..e7ed5e9 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -905,7 +905,8 @@ private:
     // see also http://www.altairhyperworks.com/hwhelp/Altair/hw12.0/help/hm/hmbat.htm?design_variables.htm
     /** Cards that name elements, which may come before them **/
     std::set<std::string> KEYWORDS_ON_ELEMENTS = {
-        "BSURF", "PLOAD1", "PLOAD2", "PLOAD4"
+        "BSURF", "PLOAD1", "PLOAD2", "PLOAD4",
+        "CONM1", "CMASS2" // once the factor of the masses is known
     };
     std::set<std::string> IGNORED_KEYWORDS = {
         "DCONSTR", "DCONADD", "DESVAR", "DLINK", //nastran optimization keywords
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 48f78bf..0baa6da 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -511,7 +511,7 @@ void NastranParser::parseCHEXA(NastranTokenizer& tok, Model& model) {
 void NastranParser::parseCMASS2(NastranTokenizer& tok, Model& model) {
     // Defines a scalar mass element without reference to a property entry.
     int eid = tok.nextInt();
-    double m = tok.nextDouble();
+    double m = tok.nextDouble() * NodalMass::getMassMultiplier(model);
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok, model); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
     int g2 = tok.nextInt(true);
-- 
2.43.0


From 338d873322ee0dbbbe69b389a3266e8a1c1f60d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:08 +0000
Subject: [PATCH 141/153] fix: PARAM WTMASS multiplies the non structural
 masses of a NASTRAN output

---
 Nastran/NastranWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 5f360fa..18e6f0d 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -920,7 +920,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
 		prod.add(0.0); // C
-		prod.add(truss->getAdditionalRho() * truss->getAreaCrossSection()); // NSM
+		prod.add(truss->getAdditionalRho() * truss->getAreaCrossSection() * NodalMass::getMassMultiplier(model)); // NSM
 		out << prod;
 		truss->markAsWritten();
 	}
@@ -936,7 +936,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 			pbeam.add(0.0); // I12, which comes after J in PBAR
 		}
 		pbeam.add(beam->getTorsionalConstant());
-		pbeam.add(beam->getAdditionalRho() * beam->getAreaCrossSection()); // NSM
+		pbeam.add(beam->getAdditionalRho() * beam->getAreaCrossSection() * NodalMass::getMassMultiplier(model)); // NSM
 		if (isCosmic()) {
 			pbeam.add();
 		}
@@ -955,7 +955,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		pshell.add(shell->mainMaterial()->bestId());
 		pshell.add(shell->thickness);
 		pshell.add(shell->mainMaterial()->bestId()); // MID2 for bending
-		const double nsm = shell->getAdditionalRho() * shell->thickness;
+		const double nsm = shell->getAdditionalRho() * shell->thickness * NodalMass::getMassMultiplier(model);
 		if (not is_zero(nsm)) {
 			pshell.skip(3).add(nsm);
 		}
-- 
2.43.0


From ca74394f62a2608f98bafc995cf0b3bf95c21f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:32 +0000
Subject: [PATCH 142/153] fix: PIHEX is the property of solids, not of shells

---
 Nastran/NastranParser.cpp | 20 +++++++++++++++++++-
 Nastran/NastranParser.h   |  5 +++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 343a8bf..f317b2b 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -131,7 +131,7 @@ const unordered_map<string, NastranParser::parseElementFPtr> NastranParser::PARS
                 { "PROD", &NastranParser::parsePROD },
                 { "PLSOLID", &NastranParser::parsePLSOLID },
                 { "PSHELL", &NastranParser::parsePSHELL },
-                { "PIHEX", &NastranParser::parsePSHELL },
+                { "PIHEX", &NastranParser::parsePIHEX },
                 { "PSOLID", &NastranParser::parsePSOLID },
                 { "PVISC", &NastranParser::parsePVISC },
                 { "RBAR", &NastranParser::parseRBAR },
@@ -3072,6 +3072,24 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
     }
 }
 
+void NastranParser::parsePIHEX(NastranTokenizer& tok, Model& model) {
+    int pid = tok.nextInt();
+    int mid = tok.nextInt();
+    int cid = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
+    if (cid != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+        handleParsingWarning("Material coordinate system!=0 not supported and dismissed.", tok, model);
+    }
+    tok.nextInt(true); // NIP : number of integration points
+    for (int i = 0; i < 3; i++) {
+        tok.nextDouble(true); // AR, ALPHA, BETA : checks of the shape
+    }
+    const auto& continuum = make_shared<Continuum>(model, ModelType::TRIDIMENSIONAL, pid);
+    continuum->assignMaterial(Reference<Material>(Material::Type::MATERIAL, mid));
+    continuum->add(*getOrCreateCellGroup(pid, model, "PIHEX"));
+    continuum->setInputContext(tok.getInputContext());
+    model.add(continuum);
+}
+
 void NastranParser::parsePLSOLID(NastranTokenizer& tok, Model& model) {
     int pid = tok.nextInt();
     int mid = tok.nextInt();
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index e7ed5e9..9f00ac6 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -717,6 +717,11 @@ private:
      */
     void parseParamPRTMAXIM(NastranTokenizer& tok, Model& model);
 
+    /**
+     * Parse the PIHEX keyword (NASTRAN COSMIC), property of the CIHEX elements.
+     */
+    void parsePIHEX(NastranTokenizer& tok, Model& model);
+
     /**
      * Parse the PLSOLID keyword (page 2237 of MDN Nastran 2006 Quick Reference Guide.)
      * Partial support.
-- 
2.43.0


From f936f83dc37ba55b8a2d56dca6513959f67a8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:40 +0000
Subject: [PATCH 143/153] fix: two faces of the twenty-node brick have their
 nodes in the order of the other ones

---
 Abstract/MeshComponents.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 4d8fcbf..361252d 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -382,8 +382,8 @@ unordered_map<CellType::Code, vector<vector<int>>, EnumClassHash > Cell::init_fa
     };
     vector<vector<int> > hexa20list = { //
         {1,2,3,4,9,10,11,12}, //
-        {5,8,7,6,16,15,14,16}, //
-        {1,2,6,5,9,18,13,17}, //
+        {5,8,7,6,16,15,14,13}, //
+        {1,5,6,2,17,13,18,9}, //
         {2,6,7,3,18,14,19,10}, //
         {3,7,8,4,19,15,20,11}, //
         {1,4,8,5,12,20,16,17} //
-- 
2.43.0


From 400eeea14a57e808c401d891a5f44e73bcd9e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:27 +0000
Subject: [PATCH 144/153] fix: the points of CRIGD1 have their rotations, as
 those of RBE2

---
 Nastran/NastranParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index f317b2b..7e822e4 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1418,7 +1418,8 @@ void NastranParser::parseCRIGD1(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("CRIGD1 Format not respected (NASA manual v16)", tok, model);
     }
     int masterId = tok.nextInt();
-    const auto& qrc = make_shared<RigidConstraint>(model, masterId, original_id);
+    const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::ALL_DOFS, masterId, original_id);
+    qrc->addRotations = true;
     while (tok.isNextInt()) {
         qrc->addSlave(tok.nextInt());
     }
-- 
2.43.0


From b231f011b4d7965e7a7aeb0cf44d618cad59d213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:57 +0000
Subject: [PATCH 145/153] fix: ANALYSIS of a subcase may be BUCK, DFREQ, DTRAN,
 MCEIG, MFREQ or MTRAN, without SE

---
 Nastran/NastranParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 7e822e4..af1f51b 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -172,19 +172,25 @@ const std::unordered_map<std::string, NastranParser::NastranAnalysis> NastranPar
         { "105", NastranAnalysis::BUCKL },
         { "BUCKL", NastranAnalysis::BUCKL },
         { "SEBUCKL", NastranAnalysis::BUCKL },
+        { "BUCK", NastranAnalysis::BUCKL },
         { "6", NastranAnalysis::NLSTATIC },
         { "106", NastranAnalysis::NLSTATIC },
         { "NLSTATIC", NastranAnalysis::NLSTATIC },
         { "108", NastranAnalysis::DFREQ },
         { "SEDFREQ", NastranAnalysis::DFREQ },
+        { "DFREQ", NastranAnalysis::DFREQ },
         { "109", NastranAnalysis::DTRAN },
         { "SEDTRAN", NastranAnalysis::DTRAN },
+        { "DTRAN", NastranAnalysis::DTRAN },
         { "110", NastranAnalysis::MCEIG },
         { "SEMCEIG", NastranAnalysis::MCEIG },
+        { "MCEIG", NastranAnalysis::MCEIG },
         { "111", NastranAnalysis::MFREQ },
         { "SEMFREQ", NastranAnalysis::MFREQ },
+        { "MFREQ", NastranAnalysis::MFREQ },
         { "112", NastranAnalysis::MTRAN },
         { "SEMTRAN", NastranAnalysis::MTRAN },
+        { "MTRAN", NastranAnalysis::MTRAN },
         { "200", NastranAnalysis::DESOPT },
         { "DESOPT", NastranAnalysis::DESOPT },
 };
-- 
2.43.0


From a6337a4a9a4a1b3b5c4b2d82433294825c165d56 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:58:46 +0000
Subject: [PATCH 146/153] fix: a SURF line of a shell needs no grid point to
 tell its face

---
 Abstract/MeshComponents.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 361252d..ec975ad 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -465,15 +465,15 @@ map<int, vector<int>> Cell::nodeIdsByFaceNum() const {
 }
 
 vector<int> Cell::faceids_from_two_nodes(int nodeId1, int nodeId2) const {
+	if (type.dimension == SpaceDimension::DIMENSION_2D) {
+		return {nodeIds.begin(), nodeIds.end()};
+	}
 	const pos_t node1connectivityPos = findNodeIdPosition(nodeId1);
     pos_t node2connectivityPos = Globals::UNAVAILABLE_POS;
 	if (nodeId2 != Globals::UNAVAILABLE_INT) {
         node2connectivityPos = findNodeIdPosition(nodeId2);
 	}
 
-	if (type.dimension == SpaceDimension::DIMENSION_2D) {
-		return {nodeIds.begin(), nodeIds.end()};
-	}
 	const auto& faceids = FACE_BY_CELLTYPE.find(type.code)->second;
 	vector<pos_t> nodePositions;
 	switch(type.code) {
-- 
2.43.0


From 46946d43c7e704aea5ab2c14086ea059e939e8a8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:07:11 +0000
Subject: [PATCH 147/153] fix: dampers add to the global damping of a direct
 response, in Code_Aster

---
 Aster/AsterWriter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 374a148..19c24a5 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2764,9 +2764,10 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
         bool has_structural_damping = structural_damping != "" and frequency_of_interest_radians != "" and stod(frequency_of_interest_radians) > 0;
 		if (has_structural_damping) {
             comm_file_ofs << "AMST" << analysis->getId()
-                <<  " = COMB_MATR_ASSE(COMB_R = _F ( MATR_ASSE = RIGI"
+                <<  " = COMB_MATR_ASSE(COMB_R = (_F ( MATR_ASSE = RIGI"
                 << analysis->getId()
-                << ", COEF_R = " << stod(structural_damping) / stod(frequency_of_interest_radians) << "))" << endl;
+                << ", COEF_R = " << stod(structural_damping) / stod(frequency_of_interest_radians) << "),"
+                << " _F ( MATR_ASSE = AMOR" << analysis->getId() << ", COEF_R = 1.)))" << endl;
         }
 		const auto& linearDirect = dynamic_pointer_cast<LinearDynaDirectFreq>(analysis);
 
@@ -2805,7 +2806,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
         if (has_structural_damping) {
             comm_file_ofs << "                   MATR_AMOR  = AMST" << linearDirect->getId() << ","
 				<< endl;
-        } else /* LD Maybe should combine these two cases ? */ {
+        } else {
             comm_file_ofs << "                   MATR_AMOR  = AMOR" << linearDirect->getId() << ","
 				<< endl;
         }
-- 
2.43.0


From f276622068a6dac918724249ac5167f29df08ed1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:08:12 +0000
Subject: [PATCH 148/153] fix: dampers which a modal damping hides in
 Code_Aster are announced

---
 Aster/AsterWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 19c24a5..9969856 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -3162,6 +3162,11 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
         if (linearDynaModalFreq->getModalDamping() != nullptr) {
             comm_file_ofs << "                   AMOR_MODAL = _F(AMOR_REDUIT = AMMO"
                 << linearDynaModalFreq->getId() << ",)," << endl;
+            for (const auto& elementSet : asterModel->model.elementSets) {
+                if (elementSet->isDiscrete() and static_pointer_cast<Discrete>(elementSet)->hasDamping()) {
+                    handleWritingWarning("Dampers not supported with a modal damping and dismissed: " + to_str(*elementSet));
+                }
+            }
         } else {
             // LD MATR_AMOR nullifies AMOR_MODAL
             comm_file_ofs << "                   MATR_AMOR  = AMORG" << linearDynaModalFreq->getId() << ","
-- 
2.43.0


From 99e7088e81bdfb6aec0bc5fc15f54590caeca708 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:14:11 +0000
Subject: [PATCH 149/153] fix: D_SIGM_EPSI is the slope along the total strain,
 H of MATS1 along the plastic one

---
 Aster/AsterWriter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 9969856..aee7b41 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1030,8 +1030,13 @@ void AsterWriter::writeMaterials() {
 		if (binature) {
 			const auto& bilinearNature = static_pointer_cast<const BilinearElasticNature>(binature);
 			comm_file_ofs << "                 ECRO_LINE=_F(" << endl;
-			comm_file_ofs << "                         D_SIGM_EPSI=" << bilinearNature->secondary_slope << ","
-					<< endl;
+			// The slope of the stress is given along the plastic strain: here it is along the total strain
+			double slope = bilinearNature->secondary_slope;
+			if (enature) {
+			    const double young = static_pointer_cast<const ElasticNature>(enature)->getE();
+			    slope = young * slope / (young + slope);
+			}
+			comm_file_ofs << "                         D_SIGM_EPSI=" << slope << "," << endl;
 			comm_file_ofs << "                         SY=" << bilinearNature->elastic_limit << "," << endl;
 			comm_file_ofs << "                         )," << endl;
 		}
-- 
2.43.0


From 44087c1259e513b18f160b4ce6ca8ca57ea07096 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:14:11 +0000
Subject: [PATCH 150/153] fix: MATS1 PLASTIC without H is perfectly plastic

---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index af1f51b..d748f3b 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2108,7 +2108,7 @@ void NastranParser::parseMATS1(NastranTokenizer& tok, Model& model) {
                 handleParsingError("MATS1 limit2 " + to_string(yf) + " not yet implemented.", tok,
                         model);
             }
-            biNature->secondary_slope = h;
+            biNature->secondary_slope = is_equal(h, Globals::UNAVAILABLE_DOUBLE) ? 0.0 : h; // perfectly plastic
             switch (hr) {
             case 1:
                 biNature->hardening_rule_isotropic = true;
-- 
2.43.0


From 0fb1ea81c385dadf0a83b7f419bfdee4bfc86663 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:14:11 +0000
Subject: [PATCH 151/153] fix: the bulk modulus of MATHP is twice its D1

---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index d748f3b..11fe077 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2085,7 +2085,7 @@ void NastranParser::parseMATHP(NastranTokenizer& tok, Model& model) {
     }
     tok.skip(5);
     double a20 = tok.nextDouble(true, 0.0);
-    material->addNature(make_shared<HyperElasticNature>(model, a10, a01, a20, d1, rho));
+    material->addNature(make_shared<HyperElasticNature>(model, a10, a01, a20, 2 * d1, rho));
 }
 
 void NastranParser::parseMATS1(NastranTokenizer& tok, Model& model) {
-- 
2.43.0


From 74e9f5e30d97ddbceecc3f6a38adecbded70d431 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:28:02 +0000
Subject: [PATCH 152/153] fix: IN and ISOP of PSOLID may be integers with a
 plus sign

---
 Nastran/NastranParser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 11fe077..529cd6e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3188,7 +3188,11 @@ void NastranParser::parsePSOLID(NastranTokenizer& tok, Model& model) {
     if (material_coordinate_system != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
         handleParsingWarning("Material coordinate system!=0 not supported and dismissed.", tok, model);
     }
-    string psolid_in = tok.nextString(true, "BUBBLE");
+    // IN and ISOP are keywords or integers: these may have a sign
+    const auto withoutPlus = [](const string& field) {
+        return field.size() > 1 and field[0] == '+' ? field.substr(1) : field;
+    };
+    string psolid_in = withoutPlus(tok.nextString(true, "BUBBLE"));
     /*
      * Location selection for stress output.
      * Stress output may be requested at the Gauss points (STRESS = “GAUSS” or
@@ -3200,7 +3204,7 @@ void NastranParser::parsePSOLID(NastranTokenizer& tok, Model& model) {
     if (stress != "GRID") {
         handleParsingWarning("STRESS field " + stress + " not supported", tok, model);
     }
-    string isop = tok.nextString(true, "REDUCED");
+    string isop = withoutPlus(tok.nextString(true, "REDUCED"));
     const ModelType * modelType;
     if (psolid_in == "BUBBLE" && isop == "REDUCED") {
         modelType = &ModelType::TRIDIMENSIONAL_SI;
-- 
2.43.0


From 1559628513e004103635ec3b97e83c63cad4bd92 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:28:41 +0000
Subject: [PATCH 153/153] fix: Rayleigh damping left out of a SYSTUS frequency
 response is announced

---
 Systus/SystusWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 8f5d5bc..7238ded 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -3213,6 +3213,10 @@ void SystusWriter::writeDat(const SystusModel& systusModel, const vega::Configur
         sSolver = "TRAN";
         const auto& linearDynaModalFreq = static_pointer_cast<LinearDynaModalFreq>(firstAnalysis);
 
+        if (systusModel.model.contains(ModelParameter::GLOBAL_RAYLEIGH_STIFFNESS_FACTOR)
+                or systusModel.model.contains(ModelParameter::GLOBAL_RAYLEIGH_MASS_FACTOR)) {
+            handleWritingWarning("Rayleigh damping not supported and dismissed.", "Analysis file");
+        }
         if (systusModel.configuration.systusDynamicMethod=="direct") {
             handleWritingWarning("Requested direct solver, but the original study is modal.", "Analysis file");
             writeDynaDirectAnalysis(out, linearDynaModalFreq);
-- 
2.43.0

