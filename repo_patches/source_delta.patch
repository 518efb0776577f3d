From 53f691d66a270c24bebb2fdfce71586dd07540fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 01/89] fix: look up handlers and attributes without creating
 or dereferencing null entries

---
 src/gearxml/XMLHandlerMgr.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gearxml/XMLHandlerMgr.cc b/src/gearxml/XMLHandlerMgr.cc
index 710c9c1..b519a23 100644
--- a/src/gearxml/XMLHandlerMgr.cc
+++ b/src/gearxml/XMLHandlerMgr.cc
@@ -58,7 +58,9 @@ namespace gear{
   
   const XMLHandler* XMLHandlerMgr::getHandler( const std::string& type ) {
 
-    return _map[ type ] ;
+    XMLHandlerMap::const_iterator it = _map.find( type ) ;
+
+    return ( it != _map.end() ? it->second : 0 ) ;
   }
   
   
@@ -88,7 +90,7 @@ namespace gear{
 
   std::string getXMLAttribute(const TiXmlNode* node , const std::string& name ) {
     
-    const TiXmlElement* el = node->ToElement() ;
+    const TiXmlElement* el = ( node != 0 ? node->ToElement() : 0 ) ;
     if( el == 0 ) {
        std::stringstream str ;
       str  << "XMLParser::getAttribute [" << name << "] not an XMLElement " ;
@@ -129,7 +131,7 @@ namespace gear{
 
   std::string getChildElementValue(const TiXmlNode* node , const std::string& name ) {
     
-    const TiXmlElement* el = node->ToElement() ;
+    const TiXmlElement* el = ( node != 0 ? node->ToElement() : 0 ) ;
     if( el == 0 ) {
         std::stringstream str ;
       str  << "XMLParser::getAttribute [" << name << "] not an XMLElement " ;
@@ -157,7 +159,7 @@ namespace gear{
 					  const std::string& defaultValue)
   {
       
-      const TiXmlElement* el = node->ToElement() ;
+      const TiXmlElement* el = ( node != 0 ? node->ToElement() : 0 ) ;
       if( el == 0 ) 
 	  throw ParseException("XMLParser::getAttribute not an XMLElement " ) ;
 	
-- 
2.43.0


From 1de286f113b3e7d7977b970567f990a54a37ccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:14 +0000
Subject: [PATCH 02/89] fix: a failed read no longer leaves a partial geometry
 behind in GearXML

---
 src/gearxml/GearXML.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index d2cc492..aa91ea5 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -30,6 +30,7 @@
 //#include <algorithm>
 #include <sstream>
 #include <iostream>
+#include <memory>
 #include <dlfcn.h>
 
 namespace gear{
@@ -476,11 +477,10 @@ namespace gear{
       
       return _gearMgr ;
       
-    } else {
-      
-      _gearMgr = new GearMgrImpl ;
-
     }
+
+    // keep the manager only if the complete file could be read
+    std::unique_ptr<GearMgrImpl> gearMgr( new GearMgrImpl ) ;
     
     
     // parse the XML file
@@ -515,7 +515,7 @@ namespace gear{
     TiXmlNode* global =  root->FirstChild("global") ;
     if( global != 0 ){
       std::string detName  =  getXMLAttribute( global, "detectorName" )  ;
-      _gearMgr->setDetectorName( detName  ) ;
+      gearMgr->setDetectorName( detName  ) ;
     }    
     
     TiXmlNode* detectors = root->FirstChild("detectors")  ;
@@ -528,7 +528,7 @@ namespace gear{
     TiXmlNode* field = root->FirstChild("BField")  ;
     if( field != 0 ){
       ConstantBFieldXML handler ;
-      handler.fromXML( field->ToElement() , _gearMgr ) ; 
+      handler.fromXML( field->ToElement() , gearMgr.get() ) ; 
     }
 
 //-----GDML File ---------------
@@ -562,8 +562,8 @@ namespace gear{
 	GearPointProperties*    tgeopoint = mProp->getGearPointProperties() ;
 	GearDistanceProperties* tgeodist  = mProp->getGearDistanceProperties() ;
 	
-	_gearMgr->setPointProperties( tgeopoint );
-	_gearMgr->setDistanceProperties( tgeodist );
+	gearMgr->setPointProperties( tgeopoint );
+	gearMgr->setDistanceProperties( tgeodist );
 	
       } else {
 	
@@ -615,7 +615,7 @@ namespace gear{
       
       //       GearParameters* gp = 
 
-      handler->fromXML( det->ToElement() , _gearMgr ) ; 
+      handler->fromXML( det->ToElement() , gearMgr.get() ) ; 
       
     }
     
@@ -631,7 +631,7 @@ namespace gear{
       TiXmlNode* mat = 0 ;
       while( ( mat = materials->IterateChildren( "material", mat ) )  != 0  ){
 
-	handler.fromXML( mat->ToElement() , _gearMgr ) ; 
+	handler.fromXML( mat->ToElement() , gearMgr.get() ) ; 
       }
 
     }
@@ -641,6 +641,8 @@ namespace gear{
 
 
 
+    _gearMgr = gearMgr.release() ;
+
     return _gearMgr ;
   }
   
-- 
2.43.0


From e129202b00b13af19519a8fb74c6826d41d811ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:14 +0000
Subject: [PATCH 03/89] fix: keep complete string parameters and empty strings
 and vectors when reading XML

---
 src/gearxml/GearParametersXML.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index e04a9a8..0ff881c 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -244,15 +244,14 @@ namespace gear {
       std::for_each( value.begin(), value.end(), t ) ; 
 
 
-	  // fg: protect against empty value strings  in the gear file
-	  if( stringValues.size() == 0 )
+      std::string name = getXMLAttribute( par, "name" ) ;
+      std::string type = getXMLAttribute( par, "type" ) ;
 
-		  continue ;
 
- 
+	  // fg: protect against empty value strings  in the gear file
+	  if( stringValues.size() == 0 && ( type == "int" || type == "double" ) )
 
-      std::string name = getXMLAttribute( par, "name" ) ;
-      std::string type = getXMLAttribute( par, "type" ) ;
+		  continue ;
 
 
       if( type == "int" ){
@@ -265,7 +264,7 @@ namespace gear {
 	
       } else if( type == "string" ){
 	
-	gearParams->setStringVal( name ,  stringValues[0]    )   ;
+	gearParams->setStringVal( name ,  value    )   ;
 	
       } else if( type == "IntVec" ){
 
-- 
2.43.0


From 5d009b53802560e581d616aecc7b558b8b7f2c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:14 +0000
Subject: [PATCH 04/89] fix: write calorimeter layers that are merely similar
 as separate layers

---
 src/gearxml/CalorimeterParametersXML.cc | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/gearxml/CalorimeterParametersXML.cc b/src/gearxml/CalorimeterParametersXML.cc
index dad9cf6..d8c2653 100644
--- a/src/gearxml/CalorimeterParametersXML.cc
+++ b/src/gearxml/CalorimeterParametersXML.cc
@@ -16,8 +16,6 @@
 #include <math.h>
 #include <string>
 
-#define _EPSILON 0.0001
-
 
 namespace gear {
 
@@ -319,17 +317,8 @@ namespace gear {
 
   bool CalorimeterParametersXML::isEqual( const double valueOne, const double valueTwo ) const {
 
-     // save calculating time if equal
-    if ( valueOne == valueTwo ) return true ;
-    
-    // get avg value and calculate maximum allowed delta
-    double maxDelta = fabs( ( valueOne + valueTwo ) / 2 * _EPSILON ) ;
-    
-    // check if values differ by less than maximal delta
-    bool differsLess = ( fabs( valueOne - valueTwo ) < maxDelta ) ;
-
-    // return 
-    return differsLess ;
+     // only identical layers can be written as repetitions of one layer
+    return ( valueOne == valueTwo ) ;
   }
 
 } // namespace
-- 
2.43.0


From f4e4ac4ef8afc3785d07c6ed69ee3863ec0ebf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 05/89] fix: refuse negative row and pad numbers in getPadIndex
 of all pad layouts

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 4 ++--
 src/gearimpl/FixedPadSizeDiskLayout.cc  | 4 ++--
 src/gearimpl/RectangularPadRowLayout.cc | 4 ++--
 src/gearimpl/VersatileDiskRowLayout.cc  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 33bd24c..1141306 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -188,12 +188,12 @@ namespace gear {
 
   int FixedPadAngleDiskLayout::getPadIndex(int rowNum, int padNum) const {
 
-      if( rowNum  > _nRow - 1 )
+      if( rowNum < 0 || rowNum  > _nRow - 1 )
       {
 	  throw std::out_of_range(" FixedPadAngleDiskLayout::getPadIndex row number too large !");
       }
     
-    if( padNum > _nPadsInRow - 1 ) {
+    if( padNum < 0 || padNum > _nPadsInRow - 1 ) {
       
       std::stringstream sstr ;
       
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 7466118..ebcd783 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -237,12 +237,12 @@ namespace gear {
 
   int FixedPadSizeDiskLayout::getPadIndex(int rowNum, int padNum) const {
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || (unsigned) rowNum >= _rows.size() ) {
 
       throw std::out_of_range(" FixedPadSizeDiskLayout::getPadIndex row number too large !");
     }
 
-    if( padNum > _rows[rowNum].NPad - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].NPad - 1 ) {
 
       std::stringstream sstr ;
 
diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 4be80a1..1cf11d8 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -274,12 +274,12 @@ namespace gear {
   int RectangularPadRowLayout::getPadIndex(int rowNum, int padNum) const { 
 
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || (unsigned) rowNum >= _rows.size() ) {
       
       throw std::out_of_range(" RectangularPadRowLayout::getPadIndex row number too large !");
     }
     
-    if( padNum > _rows[rowNum].NPad - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].NPad - 1 ) {
       
       std::stringstream sstr ;
       
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 1e8c11f..da3b1ec 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -225,12 +225,12 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
   int VersatileDiskRowLayout::getPadIndex(int rowNum, int padNum) const { 
 
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || (unsigned) rowNum >= _rows.size() ) {
       
       throw std::out_of_range(" VersatileDiskRowLayout::getPadIndex row number too large !");
     }
     
-    if( padNum > _rows[rowNum].getNPads() - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].getNPads() - 1 ) {
       
       std::stringstream sstr ;
       
-- 
2.43.0


From 7677a9b27d807880d30d12d56855bb5f40136b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 06/89] fix: copies of a RectangularPadRowLayout know the pads
 of their rows

---
 src/gearimpl/RectangularPadRowLayout.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 1cf11d8..cece033 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -44,7 +44,7 @@ namespace gear {
       // In every instance, also the copied ones, it is filled only at first
       // usage to save memory
       // just like in the constructor
-      _padIndices.resize( _nRow ) ;
+      _padIndices.resize( _rows.size() ) ;
       for (std::vector< std::vector<int>* >::iterator rowIter = _padIndices.begin() ; 
 	   rowIter < _padIndices.end(); rowIter++)
       {
-- 
2.43.0


From 55d252cf46652d1d3383ca6869f79753b0f2f4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 07/89] fix: refuse invalid rows of a RectangularPadRowLayout
 with an exception and without counting their pads

---
 src/gearimpl/RectangularPadRowLayout.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index cece033..a446983 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -5,7 +5,6 @@
 #include <iostream>
 #include <stdexcept>
 #include <sstream>
-#include <assert.h>
 #include <cstdlib>
 
 namespace gear {
@@ -63,13 +62,11 @@ namespace gear {
     
 
     // a few sanity checks:
-    assert( nRow > 0 ) ;
-    assert( nPad > 0 ) ;
-    assert( ! ( padWidth < 0. )  ) ;
-    assert( ! ( padHeight < 0. )  ) ;
-    assert( ! ( rowHeight < 0. )  ) ;
-    assert( ! ( leftOffset < 0. )  ) ;
-    assert( ! ( rightOffset < 0. )  ) ;
+    if( nRow <= 0 || nPad <= 0 )
+      throw Exception( "RectangularPadRowLayout::addRow: number of rows and pads must be larger than 0 !" ) ;
+
+    if( padWidth < 0. || padHeight < 0. || rowHeight < 0. || leftOffset < 0. || rightOffset < 0. )
+      throw Exception( "RectangularPadRowLayout::addRow: sizes and offsets must not be negative !" ) ;
 
 
     double xMin = _extent[0] + leftOffset ;
@@ -89,8 +86,6 @@ namespace gear {
 
     Row row ; 
 
-    _nPad += abs( nRow ) * abs( nPad )  ;
-    
     row.WidthPerPad = rowWidth / nPad ;
 
     if( rowHeight == 0.0 ) 
@@ -106,6 +101,8 @@ namespace gear {
     }
 
 
+    _nPad += nRow * nPad ;
+
     row.NPad = nPad  ;
     row.PadWidth = padWidth ;
     row.PadHeight = padHeight ;
-- 
2.43.0


From 1f46f3363b4742ea22021e6f1c8cc1a11869b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 08/89] fix: RectangularPadRowLayout::repeatRows( 0 ) does not
 repeat four billion times

---
 src/gearimpl/RectangularPadRowLayout.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index a446983..b4cf980 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -137,7 +137,7 @@ namespace gear {
     
     int nRow = _rows.size() ;
     
-    for(unsigned i=0 ; i< count-1 ; ++i ){
+    for(unsigned i=1 ; i< count ; ++i ){
       for(int j=0 ; j< nRow; ++j ){
 	
 	const Row& r = _rows[j] ;
-- 
2.43.0


From e34ed8a08a26073b28a0126d2b044ca5452e5edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:53 +0000
Subject: [PATCH 09/89] fix: write the row pattern of a RectangularPadRowLayout
 the way it is read

---
 src/gearxml/RectangularPadRowLayoutXML.cc | 37 ++++++++++++++++++-----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 5f9f91a..769b0be 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -31,17 +31,39 @@ namespace gear {
 
     int repeatRowCount =  rectangularPadLayout->getRepeatRowCount() ;
 
-    if( repeatRowCount > 1 )
-      padRowLayout2DXML.SetDoubleAttribute( "RepeatRows", repeatRowCount );
-
-
     const std::vector<unsigned>& rowNumbers = rectangularPadLayout->equalRowNumbers() ;
+    const std::vector<RectangularPadRowLayout::Row>& rows = rectangularPadLayout->rows() ;
     int theRow = 0 ;
 
     int rowNum  = rowNumbers.size() ; 
     
-    if( repeatRowCount > 1  ) 
-      rowNum /=  repeatRowCount ;
+    if( repeatRowCount > 1  ) {
+
+      // find the entries that make up the row pattern - it can only be written once
+      // if all rows of the layout are repetitions of it
+      int nPattern = 0 ;
+      unsigned nPatternRows = 0 ;
+
+      while( nPattern < rowNum && nPatternRows * repeatRowCount < rows.size() )
+	nPatternRows += rowNumbers[ nPattern++ ] ;
+
+      bool isRepeated = ( nPatternRows * repeatRowCount == rows.size() ) ;
+
+      for( unsigned i=nPatternRows ; isRepeated && i<rows.size() ; ++i ){
+
+	const RectangularPadRowLayout::Row& r = rows[ i ] ;
+	const RectangularPadRowLayout::Row& p = rows[ i % nPatternRows ] ;
+
+	isRepeated = ( r.NPad == p.NPad && r.PadWidth == p.PadWidth && r.PadHeight == p.PadHeight &&
+		       r.Height == p.Height && r.LeftOffset == p.LeftOffset && r.RightOffset == p.RightOffset ) ;
+      }
+
+      if( isRepeated ) {
+
+	padRowLayout2DXML.SetAttribute( "repeatRows", repeatRowCount );
+	rowNum = nPattern ;
+      }
+    }
 
     
     
@@ -103,7 +125,8 @@ namespace gear {
 	
     }
 
-    padRowLayout->repeatRows( repeatRowCount ) ;
+    if( repeatRowCount > 1 )
+      padRowLayout->repeatRows( repeatRowCount ) ;
     
     return padRowLayout ;
   }
-- 
2.43.0


From 113dfb901d0c91578cd34d13cd3fad2434f0b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:53 +0000
Subject: [PATCH 10/89] fix: pads that fill a row completely still fit after
 rounding in XML

---
 src/gearimpl/RectangularPadRowLayout.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index b4cf980..f630489 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -74,7 +74,8 @@ namespace gear {
 
     double rowWidth = xMax - xMin ;
 
-    if( nPad * padWidth   >  rowWidth ) {
+    // allow for rounding, e.g. of pads without gap that have been read from an xml file
+    if( nPad * padWidth   >  rowWidth * ( 1. + 1.e-8 ) + 1.e-8 * ( fabs( _extent[0] ) + fabs( _extent[1] ) ) ) {
 
       std::stringstream sstr ;
       sstr << "RectangularPadRowLayout::addRow: can't fit " 
-- 
2.43.0


From eadcc6d502d693e3ad94e86e461cb1233a53986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:53 +0000
Subject: [PATCH 11/89] fix: VersatileDiskRowLayoutXML writes pitch, width and
 offset in mm and reads the pad width

---
 src/gearxml/VersatileDiskRowLayoutXML.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gearxml/VersatileDiskRowLayoutXML.cc b/src/gearxml/VersatileDiskRowLayoutXML.cc
index 26a5efc..8ef4d9d 100644
--- a/src/gearxml/VersatileDiskRowLayoutXML.cc
+++ b/src/gearxml/VersatileDiskRowLayoutXML.cc
@@ -38,12 +38,11 @@ namespace gear {
 	TiXmlElement rowElement("row");
     
 	rowElement.SetAttribute("nPad", rowIter->getNPads() ) ;
-	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch() ) ; 
-	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch() ) ; 
+	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch_mm() ) ; 
 	rowElement.SetDoubleAttribute("rowHeight", rowIter->getRowHeight() ) ; 
-	rowElement.SetDoubleAttribute("padWidth", rowIter->getPadWidth() ) ; 
+	rowElement.SetDoubleAttribute("padWidth", rowIter->getPadWidth_mm() ) ; 
 	rowElement.SetDoubleAttribute("padHeight", rowIter->getPadHeight() ) ;
-	rowElement.SetDoubleAttribute("offset", rowIter->getOffset() ) ;
+	rowElement.SetDoubleAttribute("offset", rowIter->getOffset_mm() ) ;
 
 	padRowLayout2DXML.InsertEndChild( rowElement ) ;	
     }
@@ -65,7 +64,7 @@ namespace gear {
 	  double padPitch  =  atof(  getXMLAttribute( xmlRow, "padPitch" ) .c_str() ) ;
 	  double rowHeight =  atof(  getXMLAttribute( xmlRow , "rowHeight" ) .c_str() ) ;
 
-	  double padWidth  = atof(  getOptionalXMLAttribute( xmlRow , "padWidtht" , "0.0" ).c_str() ) ;
+	  double padWidth  = atof(  getOptionalXMLAttribute( xmlRow , "padWidth" , "0.0" ).c_str() ) ;
 	  double padHeight = atof(  getOptionalXMLAttribute( xmlRow , "padHeight" , "0.0" ).c_str() ) ;
 	  double offset    = atof(  getOptionalXMLAttribute( xmlRow , "offset"    , "0.0" ).c_str() ) ;
 	  int    repeat    = atoi(  getOptionalXMLAttribute( xmlRow , "repeat"    , "1" ).c_str() ) ;
-- 
2.43.0


From 4f8ffe36e56d90c313197fc0d7a6f5142dd9d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:53 +0000
Subject: [PATCH 12/89] fix: FixedPadAngleDiskLayoutXML writes nPadsInRow as it
 is read

---
 src/gearxml/FixedPadAngleDiskLayoutXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/FixedPadAngleDiskLayoutXML.cc b/src/gearxml/FixedPadAngleDiskLayoutXML.cc
index 44d6fd0..e52f54b 100644
--- a/src/gearxml/FixedPadAngleDiskLayoutXML.cc
+++ b/src/gearxml/FixedPadAngleDiskLayoutXML.cc
@@ -40,7 +40,7 @@ namespace gear {
     
     padRowLayout2DXML.SetDoubleAttribute("phiMax", (fixedPadLayout->getPlaneExtent())[3]);
     
-    padRowLayout2DXML.SetAttribute("nPadInRow",fixedPadLayout->getNPadsInRow());
+    padRowLayout2DXML.SetAttribute("nPadsInRow",fixedPadLayout->getNPadsInRow());
     
     return padRowLayout2DXML ;
   }
-- 
2.43.0


From 6d605c7dabb25040f5e843a75272ab92351fb5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:53 +0000
Subject: [PATCH 13/89] fix: full circle rows of a VersatileDiskRowLayout are
 accepted after rounding in XML

---
 src/gearimpl/VersatileDiskRowLayout.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index da3b1ec..ef29166 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -367,7 +367,7 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
     }
 
     _padPitch = _padPitch_mm / rCentre;
-    if (_padPitch * nPads > 2*M_PI)
+    if (_padPitch * nPads > 2*M_PI + 1e-6) // allow for rounding of full circles
     {
 	std::stringstream sstr;
 	sstr <<  "gear::VersatileDiskRowLayout::addRow(): "
-- 
2.43.0


From beb0c6c673c400d8f8183fd0470381fdb80c4f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:53 +0000
Subject: [PATCH 14/89] fix: offset wrap and outer radius of
 VersatileDiskRowLayout rows

---
 src/gearimpl/VersatileDiskRowLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index ef29166..bdbeb0e 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -363,7 +363,7 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
     if (_offset >=  2. * M_PI)
     {
 	_offset -= 2. * M_PI;
-	_offset_mm += rCentre*2. * M_PI;	
+	_offset_mm -= rCentre*2. * M_PI;	
     }
 
     _padPitch = _padPitch_mm / rCentre;
@@ -380,7 +380,7 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
 
     _phiMax = _offset + _padPitch*_nPads;
     _rMin = _rCentre - rowHeight*0.5;
-    _rMin = _rCentre + rowHeight*0.5;    
+    _rMax = _rCentre + rowHeight*0.5;    
 }
 
 int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
-- 
2.43.0


From 73472f0d43f8c4cd76e93306699b8e5a81742ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:20 +0000
Subject: [PATCH 15/89] fix: the plane extent of a VersatileDiskRowLayout
 covers all rows

---
 src/gearimpl/VersatileDiskRowLayout.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index bdbeb0e..fc83ab6 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -85,14 +85,15 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 			     padWidth, padHeight, offset ) ); 
 	_padIndices.push_back( 0 );
 	rCentre += rowHeight;
+
+	// calculate correct plane extent, each of the rows has its own range in phi
+	if ( (_rows.size() ==1) || (_rows.back().getPhiMin() < _extent[2] ) )
+	    _extent[2] = _rows.back().getPhiMin();
+	if ( (_rows.size() ==1) || (_rows.back().getPhiMax() > _extent[3] ) )
+	    _extent[3] = _rows.back().getPhiMax();
     }
 
-    // calculate correct plane extent
     _extent[1]+= repeat * rowHeight;
-    if ( (_rows.size() ==1) || (_rows.back().getPhiMin() < _extent[2] ) )
-	_extent[2] = _rows.back().getPhiMin();
-    if ( (_rows.size() ==1) || (_rows.back().getPhiMax() > _extent[3] ) )
-	_extent[3] = _rows.back().getPhiMax();
     
     if ( (_extent[3] - _extent[2]) > 2*M_PI )
     {
-- 
2.43.0


From c0ea614b848e0a261ffa4d2016cd839ec7924601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:20 +0000
Subject: [PATCH 16/89] fix: rows refused by VersatileDiskRowLayout::addRow do
 not count as pads

---
 src/gearimpl/VersatileDiskRowLayout.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index fc83ab6..da27c1e 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -77,8 +77,6 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 
     double rCentre = _extent[1] + rowHeight*0.5;
 
-    _nPad +=  repeat*nPads ;
-
     for (int i = 0; i < repeat; i++)
     {
 	_rows.push_back( Row(_rows.size(), nPads, rCentre, padPitch , rowHeight , 
@@ -93,6 +91,7 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 	    _extent[3] = _rows.back().getPhiMax();
     }
 
+    _nPad +=  repeat*nPads ;
     _extent[1]+= repeat * rowHeight;
     
     if ( (_extent[3] - _extent[2]) > 2*M_PI )
-- 
2.43.0


From 98533deca67bf80a119ce80b441d0b21a4f03f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:20 +0000
Subject: [PATCH 17/89] fix: pad numbers of a VersatileDiskRowLayout row close
 only if this row is a full circle

---
 src/gearimpl/VersatileDiskRowLayout.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index da27c1e..0c7d1eb 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -250,12 +250,14 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     int pn = getPadNumber( padIndex ) - 1  ;
     int rn = getRowNumber( padIndex)  ;
     
+    const Row& row = _rows[rn] ;
+
     // anything larger than _nPadsInRow would have caused an out_of_range exception in
     // getPadNumber
     if(pn == -1)
     {
     // take into account wrap arround in case of full circle (incl. rounding errors)
-	if (fabs(_extent[3] - _extent[2] - 2*M_PI) < 1e-6 )
+	if (fabs(row.getNPads() * row.getPadPitch() - 2*M_PI) < 1e-6 )
 	    pn =  _rows[rn].getNPads() -1 ;
 	else
 	    throw Exception("VersatileDiskRowLayout::getRightNeighbour: no right neighbour pad !");
@@ -269,12 +271,14 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     int pn = getPadNumber( padIndex ) + 1  ;
     int rn = getRowNumber( padIndex)  ;
 
+    const Row& row = _rows[rn] ;
+
     // anything larger than _nPadsInRow would have caused an out_of_range exception in
     // getPadNumber
     if (pn == _rows[rn].getNPads())
     {
     // take into account wrap arround in case of full circle (incl. rounding errors)
-	if (fabs(_extent[3] - _extent[2] - 2*M_PI) < 1e-6 )
+	if (fabs(row.getNPads() * row.getPadPitch() - 2*M_PI) < 1e-6 )
 	    pn = 0 ;
 	else
 	    throw Exception("VersatileDiskRowLayout::getLeftNeighbour: no left neighbour pad !");
-- 
2.43.0


From f19895aaf71d6f283f72722e9a17153c27feb4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:56 +0000
Subject: [PATCH 18/89] fix: distance to a pad of a disk layout does not depend
 on the representation of phi

---
 src/gearimpl/FixedDiskLayoutBase.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearimpl/FixedDiskLayoutBase.cc b/src/gearimpl/FixedDiskLayoutBase.cc
index 0bc1124..f5514a5 100644
--- a/src/gearimpl/FixedDiskLayoutBase.cc
+++ b/src/gearimpl/FixedDiskLayoutBase.cc
@@ -22,6 +22,10 @@ double FixedDiskLayoutBase::getDistanceToPad(double r, double phi, int padIndex)
 	// calculate the outer coordinates of the pad (for code readability)
 	Vector2D padCenter = getPadCenter( padIndex);
 
+	// wrap phi to a symmetric range of 2*pi around the pad center
+	while( phi < padCenter[1]-M_PI ) {  phi += 2. * M_PI  ; }
+	while( phi > padCenter[1]+M_PI ) {  phi -= 2. * M_PI  ; }
+
 	double r_min = padCenter[0] - getRowHeight( getRowNumber(padIndex) ) /2.;
 	double r_max = padCenter[0] + getRowHeight( getRowNumber(padIndex) ) /2.;
 	double phi_min = padCenter[1]- getPadPitch( padIndex ) /2.;
-- 
2.43.0


From 1fdb41ea0a5d104e5a9c7b21013a76156fa6c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:56 +0000
Subject: [PATCH 19/89] fix: FixedPadAngleDiskLayout finds pads for any
 representation of phi, on the upper edge and beside the plane

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 1141306..244ef27 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -225,6 +225,9 @@ namespace gear {
 	// This is easy, the pad number in the row is the one corresponding to the angle
 	int padNumber = static_cast<int>( (phi - _phiMin) / _padAngle );
 	
+	if( padNumber >= _nPadsInRow  ) // the upper edge belongs to the last pad
+	    padNumber = _nPadsInRow -1 ;
+
 	int rowNum = r < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
     
 	if( rowNum >= _nRow  )       
@@ -254,7 +257,7 @@ namespace gear {
 	//    double m_min =  r * (cos(phi)*sin(_phiMin) - sin(phi)*cos(_phiMin));
       
 	// determine the nearest pad on the rightmost edge
-	rowNum_right = r_intersect_min < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
+	rowNum_right = r_intersect_min < _rMin ? 0 : (int) std::floor( ( r_intersect_min - _rMin ) / _rowHeight  ) ;
 	if( rowNum_right >= _nRow  )       
 	    rowNum_right = _nRow -1 ;
     }
@@ -271,7 +274,7 @@ namespace gear {
 	//    double m_max =  r * (cos(phi)*sin(_phiMax) - sin(phi)*cos(_phiMax));
 
 	// determine the nearest pad on the leftmost edge
-	rowNum_left = r_intersect_max < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
+	rowNum_left = r_intersect_max < _rMin ? 0 : (int) std::floor( ( r_intersect_max - _rMin ) / _rowHeight  ) ;
 	if( rowNum_left >= _nRow  )       
 	    rowNum_left = _nRow -1 ;
     }
@@ -333,6 +336,10 @@ namespace gear {
 //     }
       Vector2D padCenter = getPadCenter( padIndex);
 
+      // wrap phi to a symmetric range of 2*pi around the pad center
+      while( phi < padCenter[1]-M_PI ) {  phi += 2. * M_PI  ; }
+      while( phi > padCenter[1]+M_PI ) {  phi -= 2. * M_PI  ; }
+
       if( (r  < padCenter[0] - _rowHeight/2.) || (r > padCenter[0] + _rowHeight/2.) ||
 	  (phi < padCenter[1]- _padAngle/2.)  || (phi > padCenter[1]+_padAngle/2. ) )
 	  return false ;
@@ -342,6 +349,12 @@ namespace gear {
 
   bool FixedPadAngleDiskLayout::isInsidePad(double r, double phi) const {
 
+      double phiMean = (_phiMax+_phiMin)/2.;
+
+      // wrap phi to a symmetric range of 2*pi around the mean angle of the layout
+      while( phi < phiMean-M_PI ) {  phi += 2. * M_PI  ; }
+      while( phi > phiMean+M_PI ) {  phi -= 2. * M_PI  ; }
+
       if( (r < _rMin) || (r > _rMax) || (phi < _phiMin) || (phi > _phiMax) )
 	  return false ;
       else
-- 
2.43.0


From d98b3e5c76038aa13f9cb837714923a9c5eac01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:56 +0000
Subject: [PATCH 20/89] fix: FixedPadSizeDiskLayout finds the nearest pad of a
 partial disk for any representation of phi

---
 src/gearimpl/FixedPadSizeDiskLayout.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index ebcd783..3bc63b5 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -275,8 +275,9 @@ namespace gear {
 	
 	} else {
 	 
-	  while( phi < -2*M_PI       ) {  phi += 2. * M_PI  ; }
-	  while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+	  // wrap phi to a symmetric range of 2*pi around the mean angle of the layout
+	  while( phi < 0.5*_phiMax - M_PI ) {  phi += 2. * M_PI  ; }
+	  while( phi > 0.5*_phiMax + M_PI ) {  phi -= 2. * M_PI  ; }
 	  
 	  rProjectedOnPhiMax = r * cos(phi - _phiMax);
 	  rProjectedOnPhiMin = r * cos(phi - 0.);
-- 
2.43.0


From 18a49433d1e1b7f65397983ea9bd17342594e93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:16 +0000
Subject: [PATCH 21/89] fix: VersatileDiskRowLayout finds pads for any offset
 and representation of phi and beside the rows

---
 src/gearimpl/VersatileDiskRowLayout.cc | 52 ++++++++++++++------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 0c7d1eb..c81a1a8 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -325,10 +325,10 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     double phiMin = row.getOffset() + row.getPadPitch()*pn;
 
     // wrap phi to phiMin .. phiMin + 2*pi
-    if (phi < phiMin)
+    while (phi < phiMin)
 	phi += 2. * M_PI;
 
-    if (phi >= phiMin + 2*M_PI)
+    while (phi >= phiMin + 2*M_PI)
 	phi -= 2. * M_PI;
 
     double phiMax = phiMin + row.getPadPitch();
@@ -340,8 +340,7 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
   bool VersatileDiskRowLayout::isInsidePad(double r, double phi) const {
 
     //  outside of pad plane
-    if( r < _extent[0] || r > _extent[1] || 
-	phi < _extent[2] || phi > _extent[3] )
+    if( _rows.empty() || r < _extent[0] || r > _extent[1] )
       
       return false ;
     
@@ -389,19 +388,23 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
 
 int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
-    
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+    // wrap phi to a symmetric range of 2*pi around the mean angle of the row
+    double phiMean = 0.5 * ( _offset + _phiMax );
+
+    while( phi < phiMean-M_PI ) {  phi += 2. * M_PI  ; }
+    while( phi > phiMean+M_PI ) {  phi -= 2. * M_PI  ; }
 	
 	//
 
     // if the angle is in the active angle one can easily calculate the pad number
     //if (phi < _offset + _nPads * _padPitch )
-    if (phi < _offset + _nPads * _padPitch)
+    if (phi >= _offset && phi <= _offset + _nPads * _padPitch)
     {
 	int padNumber = static_cast<int>(floor( (phi - _offset)/ _padPitch ));
 	
+	if (padNumber >= _nPads) // the upper edge belongs to the last pad
+	    padNumber = _nPads-1;
+
 	return ( (_rowNumber<< 16) | (0x000ffff & padNumber) );
     }
     else //outside the active angle
@@ -418,10 +421,11 @@ int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
 
 double VersatileDiskRowLayout::Row::getDistanceToRow(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
-    
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+    // wrap phi to a symmetric range of 2*pi around the mean angle of the row
+    double phiMean = 0.5 * ( _offset + _phiMax );
+
+    while( phi < phiMean-M_PI ) {  phi += 2. * M_PI  ; }
+    while( phi > phiMean+M_PI ) {  phi -= 2. * M_PI  ; }
 	
     // copy the code from getDistanceToPad....
 
@@ -459,17 +463,18 @@ double VersatileDiskRowLayout::Row::getDistanceToRow(double r, double phi) const
     
 double VersatileDiskRowLayout::Row::distanceToPhiMin(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
-    
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
-	
 	//
 
 	double r_min   = _rCentre - _rowHeight*0.5;
 	double r_max   = _rCentre + _rowHeight*0.5;	
 	double phi_min = _offset;
 	
+	// the closest point can be on the straight edge between the corners
+	double r_intersect = r*cos(phi_min - phi);
+
+	if ( r_intersect > r_min && r_intersect < r_max )
+	    return fabs( r*sin(phi_min - phi) );
+
 	double distanceToCorner[2];
 	
 	distanceToCorner[0] = r_min*r_min + r*r - 2*r_min*r*cos(phi_min - phi);
@@ -483,17 +488,18 @@ double VersatileDiskRowLayout::Row::distanceToPhiMin(double r, double phi) const
 
 double VersatileDiskRowLayout::Row::distanceToPhiMax(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
-    
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
-	
 	//
 	
 	double r_min   = _rCentre - _rowHeight*0.5;
 	double r_max   = _rCentre + _rowHeight*0.5;	
 	double phi_max = _offset + _nPads * _padPitch;
 	
+	// the closest point can be on the straight edge between the corners
+	double r_intersect = r*cos(phi_max - phi);
+
+	if ( r_intersect > r_min && r_intersect < r_max )
+	    return fabs( r*sin(phi_max - phi) );
+
 	double distanceToCorner[2];
 	
 	distanceToCorner[0] = r_min*r_min + r*r - 2*r_min*r*cos(phi_max - phi);
-- 
2.43.0


From 6845d57e203a153b45ae3deaae5a9ccdea3f4c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 22/89] fix: RectangularPadRowLayout::getNearestPad does not
 leave the existing rows

---
 src/gearimpl/RectangularPadRowLayout.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index f630489..c746dcc 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -354,6 +354,9 @@ int RectangularPadRowLayout::getNearestPadOld(double x, double y) const {
 
 int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 
+    if( _rows.empty() )
+      throw Exception("RectangularPadRowLayout::getNearestPad: no pad rows defined !");
+
     //  move from outside of pad plane to edge of pad plane
     if(  x < _extent[0] ) x =  _extent[0] ;
     if(  x > _extent[1] ) x =  _extent[1] ;
@@ -380,6 +383,10 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 			
 			// check the next row of pads, it could be closer to them then this row
 			const int next_row_number = (y_displacement < 0)? row_number - 1: row_number + 1;
+
+			// there is no next row below the first and above the last one
+			if( next_row_number < 0 || next_row_number >= (int) _rows.size() ) break;
+
 			const Row &next_row = _rows[next_row_number];
 
 			const double y_distance_from_pads = fabs(y_displacement) - (row.PadHeight/2);
@@ -407,6 +414,9 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 				offset = y_displacement - (row.Height/2);
 			}
 
+			// within numerical precision this is the edge of the first or last row
+			if( remaining_rows == 0 ) break;
+
 			const double param = remaining_rows * (offset / remaining_distance);
 			const int delta_row = (int)((param < 0)? floor(param): ceil(param));
 
@@ -420,6 +430,9 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 			}
 
 			row_number += delta_row;
+
+			if( row_number < 0 ) row_number = 0;
+			if( row_number >= (int) _rows.size() ) row_number = _rows.size() - 1;
 		}
 		
 		/*std::cout << "Hit Enter to continue... \n";
-- 
2.43.0


From a8074c5d2d07dd0d967b8586631f184472ef247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 23/89] fix: RectangularPadRowLayout::getDistanceToPad uses the
 effective pad as documented

---
 src/gearimpl/RectangularPadRowLayout.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index c746dcc..3b9c995 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -593,9 +593,9 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
        // calculate xMin, xMax, yMin, yMax from pad coordinates
        Vector2D padCentre = getPadCenter(padIndex);
 
-//       int rowNumber = getRowNumber(padIndex);
-       double padHeight = getPadHeight(padIndex);
-       double padWidth  = getPadWidth(padIndex);
+       // the distance refers to the effective pad, see PadRowLayout2D
+       double padHeight = getRowHeight(getRowNumber(padIndex));
+       double padWidth  = getPadPitch(padIndex);
 
        Vector2D testCoordinates;
        testCoordinates[0]=c0; testCoordinates[1]=c1;
-- 
2.43.0


From e75378a49413b9c6ce972c27e71fbbc837b41896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:22 +0000
Subject: [PATCH 24/89] fix: RectangularPadRowLayout::getNearestPad terminates
 for points on the edge between two rows

---
 src/gearimpl/RectangularPadRowLayout.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 3b9c995..a6d9f8c 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -366,6 +366,10 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 	// make a best guess at the starting row by assuming all rows are the same height
     int row_number = (int)( round( (_rows.size() - 1) * (y - _extent[2]) / (_extent[3] - _extent[2]) ) );
 
+    // rows that have not been excluded yet
+    int first_row = 0;
+    int last_row = _rows.size() - 1;
+
     // do a binary search for the nearest row
 	while( true ) {
 
@@ -379,7 +383,8 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 			// this is the correct row
 			break;
 		}
-		else if( fabs(y_displacement) <= (row.Height/2) ) {
+		// within numerical precision a point on the edge between two rows can be outside of both
+		else if( fabs(y_displacement) <= (row.Height/2) || row_number == ((y_displacement < 0)? first_row: last_row) ) {
 			
 			// check the next row of pads, it could be closer to them then this row
 			const int next_row_number = (y_displacement < 0)? row_number - 1: row_number + 1;
@@ -414,9 +419,6 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 				offset = y_displacement - (row.Height/2);
 			}
 
-			// within numerical precision this is the edge of the first or last row
-			if( remaining_rows == 0 ) break;
-
 			const double param = remaining_rows * (offset / remaining_distance);
 			const int delta_row = (int)((param < 0)? floor(param): ceil(param));
 
@@ -429,10 +431,12 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 			  break;
 			}
 
+			if( y_displacement < 0 ) last_row = row_number - 1; else first_row = row_number + 1;
+
 			row_number += delta_row;
 
-			if( row_number < 0 ) row_number = 0;
-			if( row_number >= (int) _rows.size() ) row_number = _rows.size() - 1;
+			if( row_number < first_row ) row_number = first_row;
+			if( row_number > last_row ) row_number = last_row;
 		}
 		
 		/*std::cout << "Hit Enter to continue... \n";
-- 
2.43.0


From 824884cc8320138ee8b46dcbd21cd429ecd603cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:57 +0000
Subject: [PATCH 25/89] fix: RectangularPadRowLayout::getNearestPad does not
 round beyond the last pad of a row

---
 src/gearimpl/RectangularPadRowLayout.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index a6d9f8c..b81463d 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -461,6 +461,9 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 
       pad_number =  (int) ( ( x - (  _extent[0] + row.LeftOffset ) )  /  row.WidthPerPad ) ;  
 
+      // rounding can lead beyond the last pad
+      if( pad_number >= row.NPad ) pad_number = row.NPad - 1;
+
     }
 
     return getPadIndex( row_number , pad_number ) ;
-- 
2.43.0


From 4c3ab48130e39044a926fe2afaade11f7531fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:31 +0000
Subject: [PATCH 26/89] fix: distances to the corners of pads are not nan by
 rounding

---
 src/gearimpl/FixedDiskLayoutBase.cc    |  9 +++++----
 src/gearimpl/VersatileDiskRowLayout.cc | 11 +++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/gearimpl/FixedDiskLayoutBase.cc b/src/gearimpl/FixedDiskLayoutBase.cc
index f5514a5..720c10d 100644
--- a/src/gearimpl/FixedDiskLayoutBase.cc
+++ b/src/gearimpl/FixedDiskLayoutBase.cc
@@ -1,5 +1,6 @@
 #include "gearimpl/FixedDiskLayoutBase.h"
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <sstream>
@@ -62,12 +63,12 @@ double FixedDiskLayoutBase::getDistanceToPad(double r, double phi, int padIndex)
 	    {
 		// you can check this formula by calculaing sqrt( (x-x_min)^2 - (y-y_min)^2 )
 		// where x_min = r_min cos(phi_min) etc.
-		distance_phiMin = sqrt( r*r + r_min*r_min -2 * r_min * r_intersect_phiMin );
+		distance_phiMin = sqrt( std::max( 0., r*r + r_min*r_min -2 * r_min * r_intersect_phiMin ) );
 	    }
 	    else
 	    if ( r_intersect_phiMin > r_max ) 
 	    {
-		distance_phiMin = sqrt( r*r + r_max*r_max -2 * r_max * r_intersect_phiMin );
+		distance_phiMin = sqrt( std::max( 0., r*r + r_max*r_max -2 * r_max * r_intersect_phiMin ) );
 	    }
 	    else
 		distance_phiMin =  fabs( m_phiMin );
@@ -82,12 +83,12 @@ double FixedDiskLayoutBase::getDistanceToPad(double r, double phi, int padIndex)
 	    {
 		// you can check this formula by calculaing sqrt( (x-x_max)^2 - (y-y_max)^2 )
 		// where x_max = r_min cos(phi_max) etc.
-		distance_phiMax = sqrt( r*r + r_min*r_min -2 * r_min * r_intersect_phiMax );
+		distance_phiMax = sqrt( std::max( 0., r*r + r_min*r_min -2 * r_min * r_intersect_phiMax ) );
 	    }
 	    else
 	    if ( r_intersect_phiMax > r_max ) 
 	    {
-		distance_phiMax = sqrt( r*r + r_max*r_max -2 * r_max * r_intersect_phiMax );
+		distance_phiMax = sqrt( std::max( 0., r*r + r_max*r_max -2 * r_max * r_intersect_phiMax ) );
 	    }
 	    else
 		distance_phiMax =  fabs( m_phiMax );
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index c81a1a8..c552198 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -1,5 +1,6 @@
 #include "gearimpl/VersatileDiskRowLayout.h"
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 //#include <stdexcept>
@@ -480,10 +481,11 @@ double VersatileDiskRowLayout::Row::distanceToPhiMin(double r, double phi) const
 	distanceToCorner[0] = r_min*r_min + r*r - 2*r_min*r*cos(phi_min - phi);
 	distanceToCorner[1] = r_max*r_max + r*r - 2*r_max*r*cos(phi_min - phi);
 	
-	return sqrt(
+	// at the corner itself the difference can be negative by rounding
+	return sqrt( std::max( 0.,
 		distanceToCorner[0] > distanceToCorner[1] ?
 		distanceToCorner[1] : distanceToCorner[0]
-	);
+	) );
 }
 
 double VersatileDiskRowLayout::Row::distanceToPhiMax(double r, double phi) const
@@ -505,10 +507,11 @@ double VersatileDiskRowLayout::Row::distanceToPhiMax(double r, double phi) const
 	distanceToCorner[0] = r_min*r_min + r*r - 2*r_min*r*cos(phi_max - phi);
 	distanceToCorner[1] = r_max*r_max + r*r - 2*r_max*r*cos(phi_max - phi);
 
-	return sqrt(
+	// at the corner itself the difference can be negative by rounding
+	return sqrt( std::max( 0.,
 		distanceToCorner[0] > distanceToCorner[1] ?
 		distanceToCorner[1] : distanceToCorner[0]
-	);
+	) );
 }    
 
 
-- 
2.43.0


From a9ee5c55d679626791bcce4525662fe1667138aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 27/89] fix: the border of a polar TPC module never exceeds the
 gap between the edges of the pad plane

---
 src/gearimpl/TPCModuleImpl.cc | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 0c07290..a0e6c84 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -211,30 +211,25 @@ namespace gear {
 		    _localModuleExtent[0] = ( rMin >=0. ? rMin : 0. );
 		    _localModuleExtent[1] = _padRowLayout->getPlaneExtent()[1] + _border;//rMax
 		
-		    // first calculate the angle which corresponds to the border
+		    // the border can at most close the gap between the edges of the pad layout
+		    double phiBorderMax = M_PI - (_padRowLayout->getPlaneExtent()[3] - _padRowLayout->getPlaneExtent()[2]) / 2.;
+		    if ( phiBorderMax < 0. ) phiBorderMax = 0.;
+
+		    // calculate the angle which corresponds to the border
 		    double phiBorder;
-		    if (_padRowLayout->getPlaneExtent()[1] > 0) // inner radius of pad plane > 0
+		    if (_padRowLayout->getPlaneExtent()[0] > 0) // inner radius of pad plane > 0
 			                                        // to avoid divide by 0
 		    {
-			//phiBorder = _border/_padRowLayout->getPlaneExtent()[1] * 2. *M_PI;
 			phiBorder = _border / _padRowLayout->getPlaneExtent()[0];
+			if ( phiBorder > phiBorderMax ) phiBorder = phiBorderMax;
 		    }
-		    else // the plane extent is a full circle 
+		    else // the module extent is a full circle 
 		    {
-			phiBorder = M_PI;
+			phiBorder = phiBorderMax;
 		    }
 		    
 		    double phiMin = _padRowLayout->getPlaneExtent()[2] - phiBorder;
 		    double phiMax = _padRowLayout->getPlaneExtent()[3] + phiBorder;
-
-		    //phi needs some safety checks
-		    if (phiMax - phiMin > 2*M_PI)
-		    {
-			// the border should be half of the gap between the pad layout edged
-			phiBorder = (2*M_PI - phiMax + phiMin)/2.;
-			phiMin = _padRowLayout->getPlaneExtent()[2] - phiBorder;
-			phiMax = _padRowLayout->getPlaneExtent()[3] + phiBorder;
-		    }
 		    
 		    _localModuleExtent[2] = phiMin;
 		    _localModuleExtent[3] = phiMax;
-- 
2.43.0


From 52b15c7d9935538a98716e827b72b5413413baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 28/89] fix: TPCModuleImpl::setZPosition updates the mirrored
 coordinates and extents

---
 src/gearimpl/TPCModuleImpl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index a0e6c84..e913cd8 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1502,6 +1502,11 @@ namespace gear {
     {
       _zPosition = z;
       _zPositionIsSet = true;
+      // the sign of z decides about the mirroring of the x axis, so the plane extents can change
+      checkLocalIsGlobal();
+      // (there are no extents of cartesian pad planes in polar coordinates)
+      if ( _momsCoordinateType == PadRowLayout2D::CARTESIAN || _padRowLayout->getCoordinateType() == PadRowLayout2D::POLAR )
+	convertLocalPlaneToGlobalPlaneExtend();
     }
 
     void TPCModuleImpl::setAngle(double angle)
-- 
2.43.0


From 628680934d486d7ca83eefb76d286ac3db548d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 29/89] fix: a new TPCModuleImpl with polar pads in a cartesian
 TPC has cartesian extents

---
 src/gearimpl/TPCModuleImpl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index e913cd8..cae189c 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1192,6 +1192,10 @@ namespace gear {
 	  _zPositionIsSet = false;
 
 	  checkLocalIsGlobal();
+
+	  // a polar pad plane has a different extent in cartesian coordinates
+	  if ( _momsCoordinateType == PadRowLayout2D::CARTESIAN && _padRowLayout->getCoordinateType() == PadRowLayout2D::POLAR )
+	    convertLocalPlaneToGlobalPlaneExtend();
     }
 
     TPCModuleImpl::TPCModuleImpl(const TPCModuleImpl &right)
-- 
2.43.0


From 5e7f6c89c8a8f0ace28bf4adb259f6edaba76196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 30/89] fix: TPCModuleImpl::globalToLocal wraps angles to
 0..2pi

---
 src/gearimpl/TPCModuleImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index cae189c..b699878 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -49,8 +49,8 @@ namespace gear {
 		{
 		    double localAngle = c1 - _angle ;
 		    // wrap to 0..2pi
-		    if (localAngle < 0) localAngle+= 2*M_PI;
-		    if (localAngle > 2*M_PI) localAngle+= 2*M_PI;
+		    while (localAngle < 0) localAngle+= 2*M_PI;
+		    while (localAngle > 2*M_PI) localAngle-= 2*M_PI;
 
 		    return Vector2D(c0, localAngle);
 		}
-- 
2.43.0


From 24538adb1b752f644277317b67fa0e7a8ede4490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 31/89] fix: distances to the corners of TPC modules are not
 nan by rounding

---
 src/gearimpl/TPCModuleImpl.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index b699878..04a8d43 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1,6 +1,7 @@
 #include "gearimpl/TPCModuleImpl.h"
 #include "gearimpl/FixedPadSizeDiskLayout.h"
 #include "gearimpl/RectangularPadRowLayout.h"
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <iostream>
@@ -1423,13 +1424,13 @@ namespace gear {
 		{
 		    // you can check this formula by calculaing sqrt( (x-x_min)^2 - (y-y_min)^2 )
 		    // where x_min = r_min cos(phi_min) etc.
-		    distance_phiMin = sqrt( localC[0]*localC[0] + _localModuleExtent[0]*_localModuleExtent[0] -2 * _localModuleExtent[0] * r_intersect_phiMin );
+		    distance_phiMin = sqrt( std::max( 0., localC[0]*localC[0] + _localModuleExtent[0]*_localModuleExtent[0] -2 * _localModuleExtent[0] * r_intersect_phiMin ) );
 		}
 		else
 		    if ( r_intersect_phiMin > _localModuleExtent[1] ) 
 		    {
-			distance_phiMin = sqrt( localC[0]*localC[0] + _localModuleExtent[1]*_localModuleExtent[1] 
-						-2 * _localModuleExtent[1] * r_intersect_phiMin );
+			distance_phiMin = sqrt( std::max( 0., localC[0]*localC[0] + _localModuleExtent[1]*_localModuleExtent[1] 
+						-2 * _localModuleExtent[1] * r_intersect_phiMin ) );
 		    }
 		    else
 			distance_phiMin =  fabs( m_phiMin );
@@ -1444,12 +1445,12 @@ namespace gear {
 		{
 		    // you can check this formula by calculaing sqrt( (x-x_max)^2 - (y-y_max)^2 )
 		    // where x_max = r_min cos(phi_max) etc.
-		    distance_phiMax = sqrt( localC[0]*localC[0] + _localModuleExtent[0]*_localModuleExtent[0] -2 * _localModuleExtent[0] * r_intersect_phiMax );
+		    distance_phiMax = sqrt( std::max( 0., localC[0]*localC[0] + _localModuleExtent[0]*_localModuleExtent[0] -2 * _localModuleExtent[0] * r_intersect_phiMax ) );
 		}
 		else
 		    if ( r_intersect_phiMax > _localModuleExtent[1] ) 
 		    {
-			distance_phiMax = sqrt( localC[0]*localC[0] + _localModuleExtent[1]*_localModuleExtent[1] -2 * _localModuleExtent[1] * r_intersect_phiMax );
+			distance_phiMax = sqrt( std::max( 0., localC[0]*localC[0] + _localModuleExtent[1]*_localModuleExtent[1] -2 * _localModuleExtent[1] * r_intersect_phiMax ) );
 		    }
 		    else
 			distance_phiMax =  fabs( m_phiMax );
-- 
2.43.0


From 2cd65d1d85ac73bd0352ff56d8c9f0b8a3004b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:05 +0000
Subject: [PATCH 32/89] fix: TPCModuleImpl::isInsidePad does not throw at the
 origin of the pad layout

---
 src/gearimpl/TPCModuleImpl.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 04a8d43..ab0f660 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1301,8 +1301,7 @@ namespace gear {
 		    temp[1] -= 2*M_PI;
 	}
 
-	int nearestPad = _padRowLayout->getNearestPad(temp[0],temp[1]);
-	return _padRowLayout->isInsidePad(temp[0],temp[1],nearestPad);
+	return _padRowLayout->isInsidePad(temp[0],temp[1]);
     }
 
     bool TPCModuleImpl::isInsideModule(double c0, double c1) const{
-- 
2.43.0


From e2c3ed7948ae9a0ff44aa0e635c6459b90eb631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:55 +0000
Subject: [PATCH 33/89] fix: extents of TPC modules respect every
 representation of the sector

---
 src/gearimpl/TPCModuleImpl.cc | 65 ++++++++++-------------------------
 1 file changed, 18 insertions(+), 47 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index ab0f660..c8ac987 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -8,6 +8,16 @@
 #include <limits>
 
 namespace gear {
+    /* Checks whether the angle (in any representation) is in the sector phiMin (extent[2]) to phiMax (extent[3]).*/
+    static bool isInSector( double phi, const std::vector<double> & extent )
+    {
+	while ( phi < extent[2] )
+	    phi += 2*M_PI;
+	while ( phi >= extent[2] + 2*M_PI )
+	    phi -= 2*M_PI;
+	return phi <= extent[3];
+    }
+
     /* Transforms a point from the global coordinates to Layout2D coordinates.*/
     gear::Vector2D TPCModuleImpl::globalToLocal(double c0,double c1)const 
     {
@@ -377,15 +387,8 @@ namespace gear {
 	Vector2D localOriginInGlobalCoordinates = localToGlobal( 0 , 0 );
 	double testYMax = localOriginInGlobalCoordinates[1] + localExtent[1]; // module centre + rMax
 	double localPhi1 = globalToLocal( localOriginInGlobalCoordinates[0], testYMax )[1];
-	// test for [0:2pi] and [-2pi:0]
-	double localPhi2 ;
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( isInSector( localPhi1, localExtent ) )
 	{   // testYMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    yMax = testYMax;
@@ -397,16 +400,8 @@ namespace gear {
 	double testYMin = localOriginInGlobalCoordinates[1] - localExtent[1]; // module centre - rMax
 	localPhi1 = globalToLocal( localOriginInGlobalCoordinates[0], testYMin )[1];
 	// std::cout <<"#DEBUG localPhi1 for ymin "<< localPhi1<<std::endl;
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
-	//std::cout <<"#DEBUG localPhi2 for ymin "<< localPhi2<<std::endl;
-
 	// change yMin if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( isInSector( localPhi1, localExtent ) )
 	{   // testYMin is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    yMin = testYMin;
@@ -415,14 +410,8 @@ namespace gear {
 	// test tho possible new xMax
 	double testXMax = localOriginInGlobalCoordinates[0] + localExtent[1]; // module centre + rMax
 	localPhi1 = globalToLocal( testXMax, localOriginInGlobalCoordinates[1] )[1];
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( isInSector( localPhi1, localExtent ) )
 	{   // testXMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    xMax = testXMax;
@@ -431,14 +420,8 @@ namespace gear {
 	// test the possible new xMin
 	double testXMin = localOriginInGlobalCoordinates[0] - localExtent[1]; // module centre - rMax
 	localPhi1 = globalToLocal( testXMin, localOriginInGlobalCoordinates[1] )[1];
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( isInSector( localPhi1, localExtent ) )
 	{   // testYMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    xMin = testXMin;
@@ -518,16 +501,10 @@ namespace gear {
 	    // test if rMin direction is in pad plane
 	    // test for [0:2pi] and [-2pi:0]
 	    double phiTest1 =  fmod(globalOriginInLocal[1], 2*M_PI);
-	    double phiTest2;
-	    if ( phiTest1 < 0 )
-		phiTest2 = phiTest1 + 2*M_PI;
-	    else
-		phiTest2 = phiTest1 - 2*M_PI;
 	    
 	    double rMin;
-	    // one of the two has to be in the active area for this to be the real rMin
-	    if ( ( (phiTest1 > localExtent[2]) && (phiTest1 < localExtent[3]) ) ||
-		 ( (phiTest2 > localExtent[2]) && (phiTest2 < localExtent[3]) ) )
+	    // it has to be in the active area for this to be the real rMin
+	    if ( isInSector( phiTest1, localExtent ) )
 	    {
 
 		//std::cout << "#rmin in active area"<< std::endl;
@@ -619,16 +596,10 @@ namespace gear {
 	    // now rMax
 	    // test for [0:2pi] and [-2pi:0], the direction opposite of the origin
 	    double phiTest3 =  fmod(globalOriginInLocal[1] + M_PI, 2*M_PI);
-	    double phiTest4;
-	    if ( phiTest3 < 0 )
-		phiTest4 = phiTest3 + 2*M_PI;
-	    else
-		phiTest4 = phiTest3 - 2*M_PI;
 				
 	    double rMax;
-	    // one of the two has to be in the active area for this to be the real rMax
-	    if ( ( (phiTest3 > localExtent[2]) && (phiTest3 < localExtent[3]) ) ||
-		 ( (phiTest4 > localExtent[2]) && (phiTest4 < localExtent[3]) ) )
+	    // it has to be in the active area for this to be the real rMax
+	    if ( isInSector( phiTest3, localExtent ) )
 	    {
 		//std::cout << "#rmax in active area"<< std::endl;
 		// rMax is the sum of local rMax and the distance to the origin
-- 
2.43.0


From 0e2d679e18714c6bf5e7853cd1c2e51ccab6f34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:39 +0000
Subject: [PATCH 34/89] fix: the extent of an unshifted polar TPC module keeps
 the width of its sector

---
 src/gearimpl/TPCModuleImpl.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index c8ac987..d5b7aa9 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -462,9 +462,8 @@ namespace gear {
 	    while (phiMax > 2*M_PI)  phiMax -= 2*M_PI;
 	    while (phiMax <  0     )  phiMax += 2*M_PI;
 	    
-	    // force phiMin to be smaller than phiMax, but max 
-	    while ( phiMin > phiMax          )  phiMin -= 2*M_PI;
-	    while ( phiMin < phiMax - 2*M_PI )  phiMin += 2*M_PI;
+	    // phiMin follows with the width of the sector
+	    phiMin = phiMax - ( localExtent[3] - localExtent[2] );
 
 	    std::vector<double> globalExtent;
 	    globalExtent.push_back(localExtent[0]);
-- 
2.43.0


From 43bf069a475598012cc3d8f1a62c175a80eb175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:00 +0000
Subject: [PATCH 35/89] fix: phi extent of polar TPC modules at the limits of
 the cases

---
 src/gearimpl/TPCModuleImpl.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index d5b7aa9..225333f 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -11,6 +11,10 @@ namespace gear {
     /* Checks whether the angle (in any representation) is in the sector phiMin (extent[2]) to phiMax (extent[3]).*/
     static bool isInSector( double phi, const std::vector<double> & extent )
     {
+	// the edges of a full circle need not match exactly
+	if ( extent[3] - extent[2] > 2*M_PI - 1e-9 )
+	    return true;
+
 	while ( phi < extent[2] )
 	    phi += 2*M_PI;
 	while ( phi >= extent[2] + 2*M_PI )
@@ -659,9 +663,9 @@ namespace gear {
 		// Force local angle where the tangent touches the circle to phiMin -- phiMin+2pi.
 		// In case of negative half TPC min and max are exchanged since globalToLocal
 		// flips the x axis (= angle)
-		double phiTestMin = globalToLocal( sqrt(localOriginInGlobalCoordinates[0]*
+		double phiTestMin = globalToLocal( sqrt( std::max( 0., localOriginInGlobalCoordinates[0]*
 							localOriginInGlobalCoordinates[0] 
-							- localExtent[1] * localExtent[1]),
+							- localExtent[1] * localExtent[1]) ),
 						   ( _zPosition > 0 ? phi_tangent_min 
 						                    : phi_tangent_max    )  )[1];
 
@@ -674,7 +678,7 @@ namespace gear {
 		//std::cout << "#phiTestMin "<< phiTestMin << std::endl;
 
 		// test whether in active area
-		if ( phiTestMin < localExtent[3] )
+		if ( isInSector( phiTestMin, localExtent ) )
 		{
 		  // The phiTestMin is the minimum in local coordinates.
 		  // For the negative half TPC it is the global maximum because the
@@ -716,9 +720,9 @@ namespace gear {
 		// Force local angle where the tangent touches the circle to phiMin -- phiMin+2pi
 		// In case of negative half TPC min and max are exchanged since globalToLocal
 		// flips the x axis (= angle)
-		double phiTestMax = globalToLocal( sqrt(localOriginInGlobalCoordinates[0]*
+		double phiTestMax = globalToLocal( sqrt( std::max( 0., localOriginInGlobalCoordinates[0]*
 							localOriginInGlobalCoordinates[0] 
-							- localExtent[1] * localExtent[1]),
+							- localExtent[1] * localExtent[1]) ),
 						   ( _zPosition > 0 ? phi_tangent_max 
 						                    : phi_tangent_min    )  )[1];
 		//std::cout << "#phiTestMax "<< phiTestMax << std::endl;
@@ -730,7 +734,7 @@ namespace gear {
 
 
 		// thest whether in active area
-		if ( phiTestMax < localExtent[3] )
+		if ( isInSector( phiTestMax, localExtent ) )
 		{
 		  // The phiTestMax is the maximum in local coordinates.
 		  // For the negative half TPC it is the global minimum because the
@@ -801,7 +805,7 @@ namespace gear {
 		double phiGlobalOrigin = globalOriginInLocal[1];
 		while ( phiGlobalOrigin < localExtent[2] )
 		    phiGlobalOrigin += 2*M_PI;
-		while ( phiGlobalOrigin > localExtent[2] + 2 *M_PI )
+		while ( phiGlobalOrigin >= localExtent[2] + 2 *M_PI )
 		    phiGlobalOrigin -= 2*M_PI;
 	    
 		//A
@@ -958,7 +962,7 @@ namespace gear {
 		}
 		else //active area > pi
 		{// B
-		    if ( phiGlobalOrigin > localExtent[3] ) // B4
+		    if ( ! isInSector( phiGlobalOrigin, localExtent ) ) // B4
 		    {
 		      if ( _zPosition > 0 )
 		      {
@@ -1062,7 +1066,7 @@ namespace gear {
 				    phiMax += 2*M_PI;
 				}
 			    }
-			    else if ( phiGlobalOrigin < localExtent[3] + M_PI) // B3
+			    else // B3
 			    {
 			      if ( _zPosition > 0 )
 			      {
-- 
2.43.0


From 1da72ba2be9848a0c0d322f1d05294731b94e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 36/89] fix: copying and assigning TPCParametersImpl does not
 recurse for ever

---
 src/gearimpl/TPCParametersImpl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/TPCParametersImpl.cc b/src/gearimpl/TPCParametersImpl.cc
index ff2a2c8..656c752 100644
--- a/src/gearimpl/TPCParametersImpl.cc
+++ b/src/gearimpl/TPCParametersImpl.cc
@@ -78,7 +78,7 @@ namespace gear {
 
 	// call the assignment operator of the GearParametersImpl mother class:
 	// *dynamic_cast<GearParametersImpl*>(this) = *dynamic_cast<GearParametersImpl const *>(&right);
-        this->operator = (right);
+        GearParametersImpl::operator = (right);
     }
 
     /// Destructor.
@@ -90,6 +90,7 @@ namespace gear {
     ///Assignment operator
     TPCParametersImpl & TPCParametersImpl::operator = (  const TPCParametersImpl & right)
     {
+	if ( this == &right ) return *this;
 	cleanup();
 	copy_and_assign( right );
 
-- 
2.43.0


From 8dc7dd302a424a2e1f57fe2e758baba917de2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 37/89] fix: copies of a TPCModuleImpl keep the user
 parameters, self assignment is safe

---
 src/gearimpl/TPCModuleImpl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 225333f..2f71b1e 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1180,6 +1180,7 @@ namespace gear {
 
     TPCModuleImpl & TPCModuleImpl::operator = (const TPCModuleImpl &right)
     {
+	if ( this == &right ) return *this;
 	cleanup();
 	copy_and_assign( right);
 	return *this;
@@ -1204,6 +1205,9 @@ namespace gear {
 	_zPosition = right._zPosition;
 	_zPositionIsSet = right._zPositionIsSet;
 
+	// the user parameters
+	GearParametersImpl::operator = (right);
+
 	// test all knows possible instances of padRowLayout
 	_padRowLayout = right._padRowLayout->clone();
     }
-- 
2.43.0


From 7e42e5dfbd8c32c9787cf754f0f211d2857191bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:12 +0000
Subject: [PATCH 38/89] fix: TrackerPlanes layers are written where the reader
 expects them, with ID and info

---
 src/gearxml/TrackerPlanesParametersXML.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index 9aca3ba..1dfa77e 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -60,6 +60,9 @@ namespace gear {
       TrackerPlanesLayerImpl* layer = const_cast<gear::TrackerPlanesLayerImpl*  > (trackerplanesLayerLayout.getLayer(il));
       if( layer == 0 ) continue;
 
+      xmlLayer.SetAttribute( "ID" , layer->getID() ) ;
+      xmlLayer.SetAttribute( "info" , layer->getInfo() ) ;
+
       TrackerPlanesMaterialLayerImplVec& material = layer->getMaterialLayerVec();
 
       TrackerPlanesSensitiveLayerImplVec& sensitive = layer->getSensitiveLayerVec();
@@ -111,9 +114,11 @@ namespace gear {
            xmlLayer.InsertEndChild( xmlSensor ) ;
        }
 
-      det.InsertEndChild( xmlLayer ) ;
+      layers.InsertEndChild( xmlLayer ) ;
     }
 
+    det.InsertEndChild( layers ) ;
+
     // Assemble Detector
     GearParametersXML::getXMLForParameters( &det , &parameters ) ;
 
-- 
2.43.0


From 180e37cffbb1ab7a967d0961aff9e5e3b86fec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:12 +0000
Subject: [PATCH 39/89] fix: sensor rotations and x/y resolutions of SiPlanes
 are written to XML

---
 src/gearxml/SiPlanesParametersXML.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index bc5730f..f8ebbd5 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -133,6 +133,9 @@ namespace gear {
       sens.SetDoubleAttribute( "positionX" , siplanesLayers.getSensitivePositionX( i ) ) ;
       sens.SetDoubleAttribute( "positionY" , siplanesLayers.getSensitivePositionY( i ) ) ;
       sens.SetDoubleAttribute( "positionZ" , siplanesLayers.getSensitivePositionZ( i ) ) ;
+      sens.SetDoubleAttribute( "rotationXY" , siplanesLayers.getSensitiveRotationXY( i ) ) ;
+      sens.SetDoubleAttribute( "rotationZX" , siplanesLayers.getSensitiveRotationZX( i ) ) ;
+      sens.SetDoubleAttribute( "rotationZY" , siplanesLayers.getSensitiveRotationZY( i ) ) ;
       sens.SetDoubleAttribute( "sizeX" , siplanesLayers.getSensitiveSizeX( i ) ) ;
       sens.SetDoubleAttribute( "sizeY" , siplanesLayers.getSensitiveSizeY( i ) ) ;
       sens.SetDoubleAttribute( "thickness" , siplanesLayers.getSensitiveThickness( i ) ) ;
@@ -141,6 +144,8 @@ namespace gear {
       sens.SetDoubleAttribute( "pitchX" , siplanesLayers.getSensitivePitchX( i ) ) ;
       sens.SetDoubleAttribute( "pitchY" , siplanesLayers.getSensitivePitchY( i ) ) ;
       sens.SetDoubleAttribute( "resolution" , siplanesLayers.getSensitiveResolution( i ) ) ;
+      sens.SetDoubleAttribute( "resolutionX" , siplanesLayers.getSensitiveResolutionX( i ) ) ;
+      sens.SetDoubleAttribute( "resolutionY" , siplanesLayers.getSensitiveResolutionY( i ) ) ;
       sens.SetDoubleAttribute( "rotation1" , siplanesLayers.getSensitiveRotation1( i ) ) ;
       sens.SetDoubleAttribute( "rotation2" , siplanesLayers.getSensitiveRotation2( i ) ) ;
       sens.SetDoubleAttribute( "rotation3" , siplanesLayers.getSensitiveRotation3( i ) ) ;
-- 
2.43.0


From bb8379a68fd898495ca775a28b5c20879fb0f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:32 +0000
Subject: [PATCH 40/89] fix: missing layers or dut elements are refused with a
 parse error

---
 src/gearxml/FTDParametersXML.cc           | 3 +++
 src/gearxml/SiPlanesParametersXML.cc      | 7 +++++++
 src/gearxml/TrackerPlanesParametersXML.cc | 3 +++
 src/gearxml/ZPlanarParametersXML.cc       | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/src/gearxml/FTDParametersXML.cc b/src/gearxml/FTDParametersXML.cc
index 9d4efcc..29a5286 100644
--- a/src/gearxml/FTDParametersXML.cc
+++ b/src/gearxml/FTDParametersXML.cc
@@ -104,6 +104,9 @@ namespace gear
 		
 		// layers
 		const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+
+		if( xmlLayers == 0 )
+		  throw ParseException( "FTDParametersXML::fromXML element 'layers' missing." ) ;
 		const TiXmlNode* xmlLayer = 0 ;
 		
 		while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) 
diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index f8ebbd5..f675f5f 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -207,6 +207,10 @@ namespace gear {
 
     if (intType == SiPlanesParameters::TelescopeWithDUT) {
       const TiXmlNode* xmlDUT = xmlElement->FirstChildElement( "dut" ) ;
+
+      if( xmlDUT == 0 )
+        throw ParseException( "SiPlanesParametersXML::fromXML element 'dut' missing." ) ;
+
       const TiXmlNode* xmlDUTLad = xmlDUT->FirstChildElement( "dut_ladder" ) ;
       const TiXmlNode* xmlDUTSen = xmlDUT->FirstChildElement( "dut_sensitive" ) ;
       
@@ -243,6 +247,9 @@ namespace gear {
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
 
+    if( xmlLayers == 0 )
+      throw ParseException( "SiPlanesParametersXML::fromXML element 'layers' missing." ) ;
+
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
 
diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index 1dfa77e..84ec8ba 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -145,6 +145,9 @@ namespace gear {
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
 
+    if( xmlLayers == 0 )
+      throw ParseException( "TrackerPlanesParametersXML::fromXML element 'layers' missing." ) ;
+
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
 
diff --git a/src/gearxml/ZPlanarParametersXML.cc b/src/gearxml/ZPlanarParametersXML.cc
index 3f0d660..7cf8aaa 100644
--- a/src/gearxml/ZPlanarParametersXML.cc
+++ b/src/gearxml/ZPlanarParametersXML.cc
@@ -167,6 +167,9 @@ namespace gear {
 
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+
+    if( xmlLayers == 0 )
+      throw ParseException( "ZPlanarParametersXML::fromXML element 'layers' missing." ) ;
     const TiXmlNode* xmlLayer = 0 ;
     
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
-- 
2.43.0


From b8473b9afe3fff6e4698baf2015b1a1f9b46c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:01 +0000
Subject: [PATCH 41/89] fix: readout frequency of TPC modules is not truncated
 to an integer when read

---
 src/gearxml/TPCModuleXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/TPCModuleXML.cc b/src/gearxml/TPCModuleXML.cc
index 2ff34ba..b9e9061 100644
--- a/src/gearxml/TPCModuleXML.cc
+++ b/src/gearxml/TPCModuleXML.cc
@@ -99,7 +99,7 @@ TPCModule* TPCModuleXML::fromXML( const TiXmlElement* moduleElement ,
     {
 	throw ParseException("TPCModuleXML: No readoutFrequency in TPCModule" ) ;
     }
-    double 	readoutFrequency = atoi( getXMLAttribute( readoutFrequencyElement , "value" ).c_str() );
+    double 	readoutFrequency = atof( getXMLAttribute( readoutFrequencyElement , "value" ).c_str() );
     
     // get the pad layout
     const TiXmlElement* padLayoutElement = moduleElement->FirstChildElement( "PadRowLayout2D" );
-- 
2.43.0


From 6474ed29a90c0eb73db1822b90f1d5ee6b46d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:01 +0000
Subject: [PATCH 42/89] fix: drift velocity of a TPC with modules is read

---
 src/gearxml/TPCParametersXML.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearxml/TPCParametersXML.cc b/src/gearxml/TPCParametersXML.cc
index 9f02c92..70a5906 100644
--- a/src/gearxml/TPCParametersXML.cc
+++ b/src/gearxml/TPCParametersXML.cc
@@ -143,6 +143,10 @@ namespace gear {
         // create the modular TPC
         modularTPC = new TPCParametersImpl( maxDriftLength ,coordinateType ) ;
 
+	std::string driftVelocity = getOptionalChildElementValue( xmlElement , "driftVelocity" , "" ) ;
+	if( ! driftVelocity.empty() )
+	    modularTPC->setDriftVelocity( atof( driftVelocity.c_str() ) ) ;
+
 	// try to find a default module
 //	const TiXmlElement* defaultModuleElement = xmlElement->FirstChildElement("default");
 //	// no need to check whether the default module was found, the module parser can run without
-- 
2.43.0


From da820b14e9cfbfd66e37414c45ee71a7c0f0db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:01 +0000
Subject: [PATCH 43/89] fix: comments consisting of an element name are not
 taken for that element

---
 src/gearxml/CalorimeterParametersXML.cc   |  1 +
 src/gearxml/FTDParametersXML.cc           |  1 +
 src/gearxml/GearParametersXML.cc          |  1 +
 src/gearxml/GearXML.cc                    | 14 +++++++++-----
 src/gearxml/RectangularPadRowLayoutXML.cc |  1 +
 src/gearxml/SiPlanesParametersXML.cc      |  1 +
 src/gearxml/TPCParametersXML.cc           |  5 ++---
 src/gearxml/TrackerPlanesParametersXML.cc |  3 +++
 src/gearxml/VersatileDiskRowLayoutXML.cc  |  1 +
 src/gearxml/ZPlanarParametersXML.cc       |  1 +
 10 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/gearxml/CalorimeterParametersXML.cc b/src/gearxml/CalorimeterParametersXML.cc
index d8c2653..e906eca 100644
--- a/src/gearxml/CalorimeterParametersXML.cc
+++ b/src/gearxml/CalorimeterParametersXML.cc
@@ -229,6 +229,7 @@ namespace gear {
 
     const TiXmlNode* layer = 0 ;
     while( ( layer = xmlElement->IterateChildren( "layer", layer ) )  != 0  ){
+      if( layer->ToElement() == 0 ) continue ;  // e.g. a comment
 
       int    nLayer            = atoi(  getXMLAttribute( layer , "repeat" ) .c_str() ) ;
       double thickness         = atof(  getXMLAttribute( layer , "thickness" ) .c_str() ) ;
diff --git a/src/gearxml/FTDParametersXML.cc b/src/gearxml/FTDParametersXML.cc
index 29a5286..38da932 100644
--- a/src/gearxml/FTDParametersXML.cc
+++ b/src/gearxml/FTDParametersXML.cc
@@ -111,6 +111,7 @@ namespace gear
 		
 		while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) 
 		{
+			if( xmlLayer->ToElement() == 0 ) continue ;  // e.g. a comment
 			int nPetals    = atoi( getXMLAttribute( xmlLayer , "nPetals" ).c_str() );
                         int nSensors   = atoi( getXMLAttribute( xmlLayer , "nSensors" ).c_str() );
                         bool isDoubleSided = atoi( getXMLAttribute( xmlLayer , "isDoubleSided" ).c_str() );
diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index 0ff881c..b806e6e 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -219,6 +219,7 @@ namespace gear {
 
     const TiXmlNode* par = 0 ;
     while( ( par = xmlElement->IterateChildren( "parameter", par ) )  != 0  ){
+      if( par->ToElement() == 0 ) continue ;  // e.g. a comment
       
       
       
diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index aa91ea5..293f89e 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -512,27 +512,27 @@ namespace gear{
     }
     
 
-    TiXmlNode* global =  root->FirstChild("global") ;
+    TiXmlNode* global =  root->FirstChildElement("global") ;
     if( global != 0 ){
       std::string detName  =  getXMLAttribute( global, "detectorName" )  ;
       gearMgr->setDetectorName( detName  ) ;
     }    
     
-    TiXmlNode* detectors = root->FirstChild("detectors")  ;
+    TiXmlNode* detectors = root->FirstChildElement("detectors")  ;
     if( detectors == 0 ){
       throw ParseException( std::string( "GearXML::createGearMgr : no detectors tag found in  ") 
 			   + _fileName  ) ;
     }
     
 //     // --- the BField ------------
-    TiXmlNode* field = root->FirstChild("BField")  ;
+    TiXmlNode* field = root->FirstChildElement("BField")  ;
     if( field != 0 ){
       ConstantBFieldXML handler ;
       handler.fromXML( field->ToElement() , gearMgr.get() ) ; 
     }
 
 //-----GDML File ---------------
-    TiXmlNode* gdmlfile = root->FirstChild("GDMLFile")  ;
+    TiXmlNode* gdmlfile = root->FirstChildElement("GDMLFile")  ;
     
     if( gdmlfile != 0 ){
       
@@ -579,6 +579,8 @@ namespace gear{
 
     TiXmlNode* det = 0 ;
     while( ( det = detectors->IterateChildren( "detector", det ) )  != 0  ){
+
+      if( det->ToElement() == 0 ) continue ;  // e.g. a comment
       
       std::string name  =  getXMLAttribute( det, "name" )  ;
 
@@ -622,7 +624,7 @@ namespace gear{
     
     //----------------------
 
-    TiXmlNode* materials = root->FirstChild("materials")  ;
+    TiXmlNode* materials = root->FirstChildElement("materials")  ;
     
     if( materials != 0 ){
       
@@ -631,6 +633,8 @@ namespace gear{
       TiXmlNode* mat = 0 ;
       while( ( mat = materials->IterateChildren( "material", mat ) )  != 0  ){
 
+	if( mat->ToElement() == 0 ) continue ;  // e.g. a comment
+
 	handler.fromXML( mat->ToElement() , gearMgr.get() ) ; 
       }
 
diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 769b0be..a1efe59 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -109,6 +109,7 @@ namespace gear {
     // ----- rows ------------
     const TiXmlNode* row = 0 ;
     while( ( row = xmlElement->IterateChildren( "row", row ) )  != 0  ){
+      if( row->ToElement() == 0 ) continue ;  // e.g. a comment
 
       int    nRow             = atoi(  getOptionalXMLAttribute( row , "repeat" , "1" ) .c_str() ) ;
 
diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index f675f5f..0d50c02 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -252,6 +252,7 @@ namespace gear {
 
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
+    if( xmlLayer->ToElement() == 0 ) continue ;  // e.g. a comment
 
     const TiXmlNode* xmlLad = xmlLayer->FirstChildElement( "ladder" ) ;
     const TiXmlNode* xmlSen = xmlLayer->FirstChildElement( "sensitive" ) ;
diff --git a/src/gearxml/TPCParametersXML.cc b/src/gearxml/TPCParametersXML.cc
index 70a5906..06ff6b1 100644
--- a/src/gearxml/TPCParametersXML.cc
+++ b/src/gearxml/TPCParametersXML.cc
@@ -153,9 +153,8 @@ namespace gear {
 //	std::cout << "GEARDEBUG: " << "defaultModuleElement = "<<defaultModuleElement<<  std::endl;
 	
 	// loop the modules section (there might be mor than one)
-	const TiXmlElement* modulesElement=0;
-	while( ( modulesElement =dynamic_cast<const TiXmlElement*>(
-		     xmlElement->IterateChildren( "modules", modulesElement ) )  )  != 0  )
+	for( const TiXmlElement* modulesElement = xmlElement->FirstChildElement( "modules" ) ; modulesElement != 0 ;
+	     modulesElement = modulesElement->NextSiblingElement( "modules" ) )
 	{
 	    //std::cout << "GEARDEBUG: " << "TPCParametersXML::fromXML : found modules section" << std::endl;
 	    
diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index 84ec8ba..131b63b 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -150,6 +150,7 @@ namespace gear {
 
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
+            if( xmlLayer->ToElement() == 0 ) continue ;  // e.g. a comment
 
             TrackerPlanesLayerImpl* layerImpl = new TrackerPlanesLayerImpl() ;
 
@@ -163,6 +164,7 @@ namespace gear {
 
             const TiXmlNode* xmlLad = 0 ;
             while( ( xmlLad = xmlLayer->IterateChildren( "ladder" , xmlLad ) ) != 0 ) {
+		    if( xmlLad->ToElement() == 0 ) continue ;  // e.g. a comment
 
 		    int lID        = atoi( getXMLAttribute( xmlLad , "ID" ).c_str() ) ;
 		    std::string lInfo = getOptionalXMLAttribute( xmlLad, "info", "" ).c_str()  ;
@@ -184,6 +186,7 @@ namespace gear {
 
             const TiXmlNode* xmlSen = 0 ;
             while( ( xmlSen = xmlLayer->IterateChildren( "sensitive" , xmlSen ) ) != 0 ) {
+		    if( xmlSen->ToElement() == 0 ) continue ;  // e.g. a comment
 
 		    int sID        = atoi( getXMLAttribute( xmlSen , "ID" ).c_str() ) ;
 		    std::string sInfo = getOptionalXMLAttribute( xmlSen, "info", "" ).c_str()  ;
diff --git a/src/gearxml/VersatileDiskRowLayoutXML.cc b/src/gearxml/VersatileDiskRowLayoutXML.cc
index 8ef4d9d..4d95a2f 100644
--- a/src/gearxml/VersatileDiskRowLayoutXML.cc
+++ b/src/gearxml/VersatileDiskRowLayoutXML.cc
@@ -59,6 +59,7 @@ namespace gear {
 
       const TiXmlNode* xmlRow = 0 ;
       while( ( xmlRow = xmlLayout->IterateChildren( "row", xmlRow ) )  != 0  ){
+      if( xmlRow->ToElement() == 0 ) continue ;  // e.g. a comment
 
 	  int    nPad      =  atoi(  getXMLAttribute( xmlRow , "nPad" ) .c_str() ) ;
 	  double padPitch  =  atof(  getXMLAttribute( xmlRow, "padPitch" ) .c_str() ) ;
diff --git a/src/gearxml/ZPlanarParametersXML.cc b/src/gearxml/ZPlanarParametersXML.cc
index 7cf8aaa..323b204 100644
--- a/src/gearxml/ZPlanarParametersXML.cc
+++ b/src/gearxml/ZPlanarParametersXML.cc
@@ -173,6 +173,7 @@ namespace gear {
     const TiXmlNode* xmlLayer = 0 ;
     
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
+      if( xmlLayer->ToElement() == 0 ) continue ;  // e.g. a comment
       
       int nLadders = atoi( getXMLAttribute( xmlLayer , "nLadders" ).c_str() ) ;
       double phi0  = atof( getXMLAttribute( xmlLayer , "phi0"     ).c_str() ) ;
-- 
2.43.0


From 174f50327c82978bc28f0d91f588ab8c19af5327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:31 +0000
Subject: [PATCH 44/89] fix: FTD petal frame is not written beyond the end of a
 vector

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index 6535cc9..a6c8089 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -260,7 +260,7 @@ std::vector<vframe> FTDLayerLayoutImpl::getframe( const Layer & l )
 	vframe e3(0.0,cos(sigma),sin(sigma));
 
 	std::vector<vframe> fr;
-	fr.reserve(3);
+	fr.resize(3);
 	fr[0] = e1;
 	fr[1] = e2;
 	fr[2] = e3;
-- 
2.43.0


From b834fba6be16e8fbcf6027e2d0ed16cb0081d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:31 +0000
Subject: [PATCH 45/89] fix: FTD layers on the negative side start at the
 number of layers, not at 7

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index a6c8089..920d4cf 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -71,14 +71,14 @@ namespace gear
 }
 
 
-// Correct the index of the layer in order to return a value < 7
+// Correct the index of the layer in order to return a value < N
 // (layers symmetric in z)
 int FTDLayerLayoutImpl::getEquivLayer(const int & layerIndex) const
 {
 //FIXME: TO DEBUG!!
 	int correctedId = -1;
 	// Using the index of the vectors 0->2N-1
-	if( layerIndex > 6)
+	if( layerIndex >= getNLayers() )
 	{
 		correctedId = layerIndex-getNLayers();
 	}
@@ -91,7 +91,7 @@ int FTDLayerLayoutImpl::getEquivLayer(const int & layerIndex) const
 	{
 		std::cout << "The disk layer introduced is not in the right format. Use the description:\n " <<
 			"Z-Positives disks: 0,1,...,N-1\n " <<
-			"Z-negatives disks: 7,8,...,2N-1\n" << std::endl;
+			"Z-negatives disks: N,N+1,...,2N-1\n" << std::endl;
 	}
 
 	return correctedId;
-- 
2.43.0


From 08f3b736405b52d180507f629fa80639dfb7018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:31 +0000
Subject: [PATCH 46/89] fix: TrackerPlanes layer layout returns its ID

---
 include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
index 5b473d2..ed8e6b1 100644
--- a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
+++ b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
@@ -384,7 +384,7 @@ class TrackerPlanesLayerLayoutImpl : public TrackerPlanesLayerLayout {
 	  virtual ~TrackerPlanesLayerLayoutImpl() { /* nop */; }
 		
           /** */
-          virtual int getID() const { return 0; }
+          virtual int getID() const { return ID; }
 
           /** */
           virtual void setID(int value) { ID = value; }
-- 
2.43.0


From 2dcb412f623c6a0e289f4989cafb9837956cfd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 47/89] fix: storing the same object again in GearMgrImpl does
 not delete it

---
 src/gearimpl/GearMgrImpl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/GearMgrImpl.cc b/src/gearimpl/GearMgrImpl.cc
index d7cb6a2..83168b9 100644
--- a/src/gearimpl/GearMgrImpl.cc
+++ b/src/gearimpl/GearMgrImpl.cc
@@ -392,7 +392,8 @@ namespace gear{
 
     if( it != _map.end() ) {
       
-      delete it->second ;
+      if( it->second != parameters )
+	delete it->second ;
       it->second = parameters ;
       
     } else {
@@ -406,7 +407,7 @@ namespace gear{
   
   void GearMgrImpl::setTPCParameters( TPCParameters* tpcParameters ) {
     
-    if(  _tpcParameters ) 
+    if(  _tpcParameters != tpcParameters ) 
       delete _tpcParameters ;
 
     _tpcParameters = tpcParameters ;
-- 
2.43.0


From 4d8f49bfee498b5cc4b8d11dd6a41f4be50282f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:47 +0000
Subject: [PATCH 48/89] fix: points in ladders are found for every azimuth,
 offset and phi0

---
 src/gearimpl/ZPlanarParametersImpl.cc | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index ce5d268..859d38d 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -43,9 +43,6 @@ namespace gear{
     // get radius of point in projection 2D
     double pRadius = sqrt( p[0]*p[0] + p[1]*p[1] ) ;
 
-    // get phi of point in projection 2D
-    double pPhi = getPhiPoint( p ) ;
-    
     for( int possibleLayer = 0 ; possibleLayer < _layer.getNLayers() ; possibleLayer++ ) {
 
       // first some quick checks to reduce cpu time
@@ -93,8 +90,6 @@ namespace gear{
       
       // find out delta phi between each ladder
       double deltaPhi = ( 2 * M_PI ) / _layer.getNLadders( possibleLayer ) ;
-      double startPhi = _layer.getStartInnerPhi( possibleLayer , sensitive ) ;
-      double endPhi = _layer.getEndInnerPhi( possibleLayer , sensitive ) ;
 
       // go through all ladders/sensitive
       int nLadders = _layer.getNLadders( possibleLayer ) ;
@@ -103,21 +98,6 @@ namespace gear{
 	double phi = _layer.getInternalPhi0( possibleLayer ) + i*deltaPhi ;
 	phi = correctPhiRange( phi ) ;
 	
-	// check start and end phi for this layer
-	double sPhi = correctPhiRange( startPhi + i*deltaPhi - _EPSILON ) ;
-	double ePhi = correctPhiRange( endPhi + i*deltaPhi + _EPSILON ) ;
-			
-	// check if point is in range of ladder
-	bool isInRange = 
-	  ( ( sPhi <= pPhi )  && ( pPhi <= ePhi ) )
-	  ||( ( sPhi > ePhi ) && ( pPhi <= ePhi ) )
-	  ||( ( sPhi > ePhi ) && ( pPhi >= sPhi ) ) ;
-
-	if ( !isInRange ) {
-	  // std::cout << " ladder/layer " << i << "/" << possibleLayer << " skipped ooR" << std::endl ;
-	  continue ;
-	}
-	
 	// take normal vector of planes, Base, Side and z
 	Vector3D nBase, nSide, nZ ;
 	
@@ -149,7 +129,6 @@ namespace gear{
 //  	std::cout << "**n[0] :" << nBase[0] << " n[1] " <<nBase[1] <<" n[2] " <<nBase[2] << std::endl ;
 // 	std::cout << "**nv[0]:" << thisVector[0]  << " nv[1]:" << thisVector[1]  << "nv[2]:" << thisVector[2]  << std::endl ;
 //  	std::cout << "**c :" << c << "  thick: " << thick << std::endl ; // debug
-//  	std::cout << "**sPhi : " << sPhi*180/M_PI <<" pPhi " << pPhi*180/M_PI << " ePhi: " << ePhi*180/M_PI << std::endl ;
 //  	std::cout << "**Phi : " << phi*180/M_PI << " atan() : " << atan( p[0]/p[1] ) << std::endl ;
 // 	std::cout << "**isEqual[0] " << isEqual( thisVector[0] , -c*nBase[0] ) 
 // 		  << " , " << isEqual( thisVector[1] , -c*nBase[1] ) 
-- 
2.43.0


From e4030191957613d2baef2e8886c10e7173f15019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:47 +0000
Subject: [PATCH 49/89] fix: nearest ladder is searched among all ladders, also
 from the origin and far away

---
 include/gear/gearimpl/ZPlanarParametersImpl.h |  4 --
 src/gearimpl/ZPlanarParametersImpl.cc         | 64 +------------------
 2 files changed, 2 insertions(+), 66 deletions(-)

diff --git a/include/gear/gearimpl/ZPlanarParametersImpl.h b/include/gear/gearimpl/ZPlanarParametersImpl.h
index 2668089..ca351e5 100644
--- a/include/gear/gearimpl/ZPlanarParametersImpl.h
+++ b/include/gear/gearimpl/ZPlanarParametersImpl.h
@@ -211,10 +211,6 @@ private:
    */
   double correctPhiRange( double Phi ) const ;
 
-  /** returns Phi for a point
-   */
-  double getPhiPoint( Vector3D p ) const ;
-
 }; // class
 
 } // namespace gear
diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 859d38d..6ae2976 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -1,6 +1,7 @@
 #include "gearimpl/ZPlanarParametersImpl.h"
 #include <math.h>
 #include <iostream>
+#include <limits>
 
 #define _EPSILON 0.0001
 
@@ -180,29 +181,13 @@ namespace gear{
       return origin ;
     }
     
-    // check if point is origin
-
-    if( origin.x() == p.x() &&  origin.y() == p.y() && origin.z() == p.z()  ) {
-
-       if( _layer.getNLayers() > 0 ){
-
- 	// simply use first ladder - distance d , phi0 , gap/2  :
-	 //fg: fixme: review definition of phi...
- 	return Vector3D( _layer.getLadderDistance(0) ,  -_layer.getInternalPhi0(0)  , _shellGap/2  , Vector3D::cylindrical ) ;
-       }
-
-       return origin ;
-    }
-
     //fg:  FIXME: this code needs to be cleaned up and checked 
     //  it can also probably be made a bit faster ...
 
 
-    double pPhi = getPhiPoint( p ) ;
-
     // this Point is solution
     Vector3D vPointPlane ;
-    double minDistance = 99999.99 ;
+    double minDistance = std::numeric_limits<double>::max() ;
 
     // go through all layers
     for ( int nearestLayer=0 ; nearestLayer < _layer.getNLayers() ; nearestLayer++ ) {
@@ -235,21 +220,6 @@ namespace gear{
 	double phi = _layer.getInternalPhi0( nearestLayer ) + i*deltaPhi ;
 	phi = correctPhiRange( phi ) ;
 
-	// check start and end phi for this layer
-	double sPhi = correctPhiRange( phi - deltaPhi ) ;
-	double ePhi = correctPhiRange( phi + deltaPhi ) ;
-			
-	// check if point is in range of ladder
-	bool isInRange = 
-	  ( ( sPhi <= pPhi )  && ( pPhi <= ePhi ) )
-	  ||( ( sPhi > ePhi ) && ( pPhi <= ePhi ) )
-	  ||( ( sPhi > ePhi ) && ( pPhi >= sPhi ) ) ;
-	
-	if ( !isInRange ) {
-	  
-	  continue ;
-	}
-	
 	// take normal vector of planes, Base, Side, Z and spacePoint
 //fg: ------- test vector3d ---------------------------
 // 	Vector3D nBase, nSide, nZ ;
@@ -805,36 +775,6 @@ namespace gear{
   } // function correctPhiRange
   
 
-  double ZPlanarParametersImpl::getPhiPoint( Vector3D p ) const {
-
-    //FG: this is the the angle with the negative y-axis 
-    // see comment at the top !
-
-    // get phi of point in projection 2D
-    double pPhi = 0. ;
-    if( ( p[0] >= 0 ) && ( p[1] == 0 ) )
-      pPhi = -M_PI/2 ;
-    
-    if( ( p[0] < 0 ) && ( p[1] == 0 ) )
-      pPhi = M_PI/2 ;
-    
-    if( ( p[0] == 0 ) && ( p[1] < 0 ) ) 
-      pPhi = 0 ;
-    
-    if( ( p[0] != 0 ) && ( p[1] < 0 ) )
-      pPhi = atan( p[0] / p[1] ) + M_PI ;
-    
-    else
-      pPhi = atan( p[0] / p[1] ) ;
-    
-    pPhi = correctPhiRange( pPhi ) ;  
-    
-    return pPhi ;
-    
-  } // function getPhiPoint
-
-
-
   bool ZPlanarParametersImpl::isEqual( double valueOne, double valueTwo ) const
   {
 
-- 
2.43.0


From 0dc9ad38c12554b0fb977a6a496dcf56fd157127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:47 +0000
Subject: [PATCH 50/89] fix: line intersections are found at negative z and
 misses are not taken for hits at the origin

---
 include/gear/gearimpl/ZPlanarParametersImpl.h |  5 ++--
 src/gearimpl/ZPlanarParametersImpl.cc         | 24 ++++++++++---------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/gear/gearimpl/ZPlanarParametersImpl.h b/include/gear/gearimpl/ZPlanarParametersImpl.h
index ca351e5..e192d7b 100644
--- a/include/gear/gearimpl/ZPlanarParametersImpl.h
+++ b/include/gear/gearimpl/ZPlanarParametersImpl.h
@@ -185,9 +185,10 @@ private:
    */     
   Vector3D intersectionLadder( Vector3D p, Vector3D v, bool sensitive = false) const ;
 
-  /** returns the intersection point of a plane and a straight line
+  /** computes the intersection point of a plane and a straight line,
+   *  returns false if there is none in the direction of the line
    */
-  Vector3D planeLineIntersection( Vector3D r, Vector3D n, Vector3D linePoint, Vector3D lineDir) const ;
+  bool planeLineIntersection( Vector3D r, Vector3D n, Vector3D linePoint, Vector3D lineDir, Vector3D& final ) const ;
 
   /** returns the confiningRatio of a point p in a plane when the plane (r,n) is reduced to a finite square
    *  extensions in direction u (minU to maxU) and in direction v (minV to maxV)
diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 6ae2976..611eb45 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -389,7 +389,7 @@ namespace gear{
   Vector3D ZPlanarParametersImpl::intersectionLadder( Vector3D p , Vector3D v , bool sensitive ) const {
     
     // return values
-    double currentLength = 99999 ;
+    double currentLength = std::numeric_limits<double>::max() ;
     Vector3D currentPoint (0. , 0. , 0. ) ;
     
     for ( int takeLayer=0 ; takeLayer < _layer.getNLayers() ; takeLayer++ ) {
@@ -418,8 +418,8 @@ namespace gear{
 	  zStart = _shellGap /2 ;
 	}
 	else {
-	  zEnd = - zEnd ;
-	  zStart = - _shellGap/2 ;
+	  zStart = - zEnd ;
+	  zEnd = - _shellGap/2 ;
 	}
 
 	// go through all ladders/sensitive
@@ -466,7 +466,8 @@ namespace gear{
 	    if ( j == 1 ) spacePoint = r ;
 
 	    // get intersection point plane/line	    
-	    Vector3D interSection = planeLineIntersection( r, nBase, p, v ) ;
+	    Vector3D interSection ;
+	    if( !planeLineIntersection( r, nBase, p, v, interSection ) ) continue ;
 
 	    // get vector from point to intersection point
 	    Vector3D vip ;
@@ -523,7 +524,8 @@ namespace gear{
 	    r[2] = spacePoint[2] + d * nSide[2] ;
 
 	    // get intersection point plane/line
-	    Vector3D interSection = planeLineIntersection( r, nSide, p, v ) ;
+	    Vector3D interSection ;
+	    if( !planeLineIntersection( r, nSide, p, v, interSection ) ) continue ;
 	     
 	    // get vector from point to intersection point
 	    Vector3D vip ;
@@ -574,7 +576,8 @@ namespace gear{
 	    r[2] = spacePoint[2] + d * nZ[2] ;
 	    
 	    // get intersection point plane/line
-	    Vector3D interSection = planeLineIntersection( r, nZ, p, v ) ;
+	    Vector3D interSection ;
+	    if( !planeLineIntersection( r, nZ, p, v, interSection ) ) continue ;
 	    
 	    // get vector from point to intersection point
 	    Vector3D vip ;
@@ -687,7 +690,7 @@ namespace gear{
 
 
 
-  Vector3D ZPlanarParametersImpl::planeLineIntersection( Vector3D r, Vector3D n, Vector3D linePoint, Vector3D lineDir) const {
+  bool ZPlanarParametersImpl::planeLineIntersection( Vector3D r, Vector3D n, Vector3D linePoint, Vector3D lineDir, Vector3D& final ) const {
 
     // calculate distance of plane
     double distance = ( r[0]*n[0] + r[1]*n[1] + r[2]*n[2] ) / ( sqrt( n[0]*n[0] + n[1]*n[1] + n[2]*n[2] ) ) ;
@@ -701,22 +704,21 @@ namespace gear{
     
     if ( denominator == 0 ) {
       // line paralell to plane -> no intersection
-      return Vector3D ( 0. , 0. , 0. ) ;
+      return false ;
     }
 
     double t = numerator/denominator ;
 
     if( t < 0 ) {
       // intersection not in direction of line
-      return Vector3D ( 0. , 0. , 0. ) ;
+      return false ;
     }
 
-    Vector3D final ;
     final[0] = linePoint[0] + t * lineDir[0] ;
     final[1] = linePoint[1] + t * lineDir[1] ;
     final[2] = linePoint[2] + t * lineDir[2] ;
 
-    return final ;
+    return true ;
 
   }// function planLineIntersectin
 
-- 
2.43.0


From 11d8232a5c22e0ddd6bc9328044f92615961db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:47 +0000
Subject: [PATCH 51/89] fix: ladder borders are not rounded to single precision

---
 include/gear/gearimpl/ZPlanarParametersImpl.h | 6 +++---
 src/gearimpl/ZPlanarLayerLayout.cc            | 4 ++--
 src/gearimpl/ZPlanarParametersImpl.cc         | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/gear/gearimpl/ZPlanarParametersImpl.h b/include/gear/gearimpl/ZPlanarParametersImpl.h
index e192d7b..f19f241 100644
--- a/include/gear/gearimpl/ZPlanarParametersImpl.h
+++ b/include/gear/gearimpl/ZPlanarParametersImpl.h
@@ -179,7 +179,7 @@ private:
    *  minU and maxU as min/max sizes of vector u still in plane
    *  minV and maxV as min/max sizes of vector v still in plane
    */
-  Vector3D distanceToPlane(Vector3D p, Vector3D r, Vector3D n, Vector3D u, Vector3D v, float minU, float maxU, float minV, float maxV) const ;
+  Vector3D distanceToPlane(Vector3D p, Vector3D r, Vector3D n, Vector3D u, Vector3D v, double minU, double maxU, double minV, double maxV) const ;
 
   /** returns the first point on the detector, where it intersects with a given straight line (parameters point p and direction v)
    */     
@@ -193,13 +193,13 @@ private:
   /** returns the confiningRatio of a point p in a plane when the plane (r,n) is reduced to a finite square
    *  extensions in direction u (minU to maxU) and in direction v (minV to maxV)
    */
-  double confiningRatio( Vector3D p , Vector3D r, Vector3D n, Vector3D u, Vector3D v, float minU, float maxU, float minV, float maxV ) const ;
+  double confiningRatio( Vector3D p , Vector3D r, Vector3D n, Vector3D u, Vector3D v, double minU, double maxU, double minV, double maxV ) const ;
   
   /** corrects the vector vPlane into the given borders, given by
    *  direction u (minU to maxU) and in direction v (minV to maxV)
    *  the corrected Vector is returned
    */
-  Vector3D correctToBorderPoint( Vector3D vPlane , Vector3D u, Vector3D v, float minU, float maxU, float minV, float maxV ) const ;
+  Vector3D correctToBorderPoint( Vector3D vPlane , Vector3D u, Vector3D v, double minU, double maxU, double minV, double maxV ) const ;
 
   bool isEqual( double valueOne , double valueTwo ) const ;
 
diff --git a/src/gearimpl/ZPlanarLayerLayout.cc b/src/gearimpl/ZPlanarLayerLayout.cc
index 2be0227..9a251c2 100644
--- a/src/gearimpl/ZPlanarLayerLayout.cc
+++ b/src/gearimpl/ZPlanarLayerLayout.cc
@@ -56,8 +56,8 @@ namespace gear{
       l = _sVec.at( layerIndex ) ;
     }
 
-    float d = l.Distance + l.Thickness ;
-    float w = l.Width / 2 + fabs( l.Offset ) ;
+    double d = l.Distance + l.Thickness ;
+    double w = l.Width / 2 + fabs( l.Offset ) ;
 
     double max = sqrt( d*d + w*w ) ;
 
diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 611eb45..a0481a8 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -618,7 +618,7 @@ namespace gear{
 
 
 
-  Vector3D ZPlanarParametersImpl::distanceToPlane( Vector3D p, Vector3D r, Vector3D n, Vector3D u, Vector3D v, float minU, float maxU, float minV, float maxV ) const {
+  Vector3D ZPlanarParametersImpl::distanceToPlane( Vector3D p, Vector3D r, Vector3D n, Vector3D u, Vector3D v, double minU, double maxU, double minV, double maxV ) const {
 
     // check zeros
 
@@ -724,7 +724,7 @@ namespace gear{
 
 
 
-  Vector3D ZPlanarParametersImpl::correctToBorderPoint( Vector3D vPlane , Vector3D u, Vector3D v, float minU, float maxU, float minV, float maxV ) const {
+  Vector3D ZPlanarParametersImpl::correctToBorderPoint( Vector3D vPlane , Vector3D u, Vector3D v, double minU, double maxU, double minV, double maxV ) const {
 
     // check if the given vector is within the boundaries
     double neededUs = vPlane[0] * u[0] + vPlane[1] * u[1] + vPlane[2] * u[2] ;
-- 
2.43.0


From 175916fb821be3973697a96ce47d13d48ed46026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:47 +0000
Subject: [PATCH 52/89] fix: outer phi of ladders and sensitive areas are not
 exchanged

---
 src/gearimpl/ZPlanarLayerLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/ZPlanarLayerLayout.cc b/src/gearimpl/ZPlanarLayerLayout.cc
index 9a251c2..042c45e 100644
--- a/src/gearimpl/ZPlanarLayerLayout.cc
+++ b/src/gearimpl/ZPlanarLayerLayout.cc
@@ -95,7 +95,7 @@ namespace gear{
   double ZPlanarLayerLayoutImpl::getStartOuterPhi( int layerIndex , bool sensitive ) const 
   {
     Layer l ;
-    if (sensitive) {
+    if (!sensitive) {
       l = _lVec.at( layerIndex ) ;
     }
     else {
@@ -108,7 +108,7 @@ namespace gear{
   double ZPlanarLayerLayoutImpl::getEndOuterPhi( int layerIndex , bool sensitive ) const 
   {
     Layer l ;
-    if (sensitive) {
+    if (!sensitive) {
       l = _lVec.at( layerIndex ) ;
     }
     else {
-- 
2.43.0


From fc8b0bca567b22f1738c2beb84896a760e69ff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:17 +0000
Subject: [PATCH 53/89] fix: printing trackers with large numbers or long texts
 does not overflow a buffer

---
 .../gearimpl/TrackerPlanesLayerLayoutImpl.h   | 22 +++++++++++--------
 src/gearimpl/Util.cc                          | 16 +++++++-------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
index ed8e6b1..aaaaa11 100644
--- a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
+++ b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
@@ -5,6 +5,7 @@
 #include "gear/TrackerPlanesLayerLayout.h"
 #include <vector>
 #include <iostream>
+#include <cstdio>
 
 namespace gear {
 
@@ -442,18 +443,20 @@ sprintf(buffer,"|------------------|--------------------------------------------
 /** */
 	virtual void PrintLayers( std::ostream& s) const {
 
-            	char buffer[1024] ;
+            	// numbers printed with %f take up to 320 characters, texts are not limited
+            	std::vector<char> buffer ;
                 const char* a=""; 
 
 		for( TrackerPlanesLayerImplVec::const_iterator it = _layerVec.begin(); it != _layerVec.end(); it++ ) {  
 			TrackerPlanesLayerImpl* layer = const_cast<TrackerPlanesLayerImpl* > (&(*it)) ;
 
- 		sprintf(buffer,"|%3d %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
+ 		buffer.resize( 16384 + layer->getInfo().size() ) ;
+ 		snprintf(&buffer[0], buffer.size(),"|%3d %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
 			, layer->getID() 
 			, layer->getInfo().c_str()
                         ,  a,a ,a,a,a,a,a,a,a,a,a,a, a,a ,a,a,a,a,a,a,a,a,a,a, a,a,a,a,a,a 
 		);
-		s << buffer ;
+		s << &buffer[0] ;
 
                 TrackerPlanesMaterialLayerImplVec::const_iterator mb = layer->getMaterialLayerVec().begin();
                 TrackerPlanesMaterialLayerImplVec::const_iterator me = layer->getMaterialLayerVec().end();
@@ -461,7 +464,8 @@ sprintf(buffer,"|------------------|--------------------------------------------
                 TrackerPlanesSensitiveLayerImplVec::const_iterator se = layer->getSensitiveLayerVec().end();
 
                 for( TrackerPlanesMaterialLayerImplVec::const_iterator ml = mb ; ml < me; ml++) {
-      		  sprintf(buffer,"|%3s %14s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
+      		  buffer.resize( 16384 + (*ml).getInfo().size() ) ;
+      		  snprintf(&buffer[0], buffer.size(),"|%3s %14s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s`%5s %5s %6s %6s %6s %6s|\n"
                       , a,a
                       , (*ml).getID() 
 		      , (*ml).getInfo().c_str() 
@@ -477,11 +481,12 @@ sprintf(buffer,"|------------------|--------------------------------------------
  		      , (*ml).getRadLength()
 	              , a,a ,a,a,a,a,a,a,a,a,a,a, a,a,a,a,a,a
  		  ); 
-	   	  s << buffer ;
+	   	  s << &buffer[0] ;
                 }
 	
                 for( TrackerPlanesSensitiveLayerImplVec::const_iterator sl = sb ; sl < se; sl++) {
-	sprintf(buffer,"|%3s %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f`%5d %5d %5.4f %5.4f %5.4f %5.4f|\n"
+	buffer.resize( 16384 + (*sl).getInfo().size() ) ;
+	snprintf(&buffer[0], buffer.size(),"|%3s %14s|%3s %14s %5s %5s %5s %5s %5s %5s %5s %5s %5s %5s|%3d %14s %5.0f %5.0f %5.0f %5.0f %5.0f %5.0f %5.2f %5.2f %5.2f %5.2f`%5d %5d %5.4f %5.4f %5.4f %5.4f|\n"
                       , a,a,   a,a,  a,a,  a,a,  a,a,  a,a,  a,a
  		      , (*sl).getID() 
  		      , (*sl).getInfo().c_str()
@@ -503,11 +508,10 @@ sprintf(buffer,"|------------------|--------------------------------------------
 		      , (*sl).getResolutionX()
        		      , (*sl).getResolutionY()
 	);
-		  s << buffer ;
+		  s << &buffer[0] ;
                   }
                 }
-sprintf(buffer,"|--------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------|\n") ;
-      		s << buffer ;
+s << "|--------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------|\n" ;
 
 	}
         
diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index ca96647..19adedf 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -518,8 +518,8 @@ namespace gear{
 
     for( int i = 0 ; i < l.getNLayers() ; i++ ) {
 
-      char buffer1[1024] ;
-      sprintf(buffer1,"  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
+      char buffer1[16384] ; // any double printed with %f takes up to 320 characters
+      snprintf(buffer1, sizeof(buffer1),"  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
 	      , l.getNLadders(i) 
 	      , l.getLadderDistance(i) 
 	      , l.getLadderWidth(i)
@@ -577,8 +577,8 @@ namespace gear{
 	  
 	  for( int i = 0 ; i < l.getNLayers() ; i++ ) 
 	  {
-		  char buffer1[1024] ;
-		  sprintf(buffer1,"  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
+		  char buffer1[16384] ; // any double printed with %f takes up to 320 characters
+		  snprintf(buffer1, sizeof(buffer1),"  | %3d  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |  %4.2f  |\n"
 				  , l.getNPetals(i) 
 				  , l.getSupportLengthMin(i) 
 				  , l.getSupportLengthMax(i)
@@ -659,8 +659,8 @@ namespace gear{
 
     for( int i = 0 ; i < l.getNLayers() ; i++ ) {
 
-      char buffer1[1024] ;
-      sprintf(buffer1,"  |%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%5.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%6.4f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
+      char buffer1[16384] ; // any double printed with %f takes up to 320 characters
+      snprintf(buffer1, sizeof(buffer1),"  |%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%5.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%6.4f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
 	      , l.getID(i) 
 	      , l.getLayerPositionX(i) 
 	      , l.getLayerPositionY(i) 
@@ -715,8 +715,8 @@ namespace gear{
       sprintf(buffer,"  |----------------------------------------------------------------------------------------------------------------------------------------------|\n") ;
       s << buffer ;
       
-      char buffer1[1024] ;
-      sprintf(buffer1,"  |%5d|%5.2f|%5.2f|%7.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
+      char buffer1[16384] ; // any double printed with %f takes up to 320 characters
+      snprintf(buffer1, sizeof(buffer1),"  |%5d|%5.2f|%5.2f|%7.2f|%6.2f|%6.2f|%6.3f|%5d|%5.2f|%5.2f|%7.2f|%5.2f|%5.2f|%6.3f|%5d|%5d|%6.2f|%6.2f|%5.2f|%5.2f|%5.2f|%5.2f|\n"
 	      , l.getDUTID() 
 	      , l.getDUTPositionX() 
 	      , l.getDUTPositionY() 
-- 
2.43.0


From 4a39a5d6402cdc87976367ec66616d2e4bb44b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:17 +0000
Subject: [PATCH 54/89] fix: SIT and SET are printed only once

---
 src/gearimpl/Util.cc | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index 19adedf..4eb5a1a 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -86,17 +86,6 @@ namespace gear{
     } catch(UnknownParameterException &e){}
 
 
-    try{ 
-      // SIT parameters
-      s <<  m.getSITParameters() <<  std::endl  ;
-    } catch(UnknownParameterException &e){}
-
-
-    try{ 
-      // SET parameters
-      s <<  m.getSETParameters() <<  std::endl  ;
-    } catch(UnknownParameterException &e){}
-
     try{ 
       // TPC parameters
       s <<  m.getTPCParameters() <<  std::endl  ;
-- 
2.43.0


From 9dfe9cc7f0b578e1aafa561f9a053f137b60666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:17 +0000
Subject: [PATCH 55/89] fix: printing a material leaves the number format of
 the stream unchanged

---
 src/gearimpl/Util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/Util.cc b/src/gearimpl/Util.cc
index 4eb5a1a..3246ac1 100644
--- a/src/gearimpl/Util.cc
+++ b/src/gearimpl/Util.cc
@@ -209,6 +209,7 @@ namespace gear{
   std::ostream& operator<< (  std::ostream& s, const  SimpleMaterial& m ) {
 
     const std::streamsize old_precision = s.precision(); // save current
+    const std::ios_base::fmtflags old_flags = s.flags() ;
     
     s << "    " << m.getName() 
       <<  std::showpos << std::scientific << std::setprecision(8) 
@@ -217,9 +218,11 @@ namespace gear{
       << ", density [kg/m3]= "         << m.getDensity() 
       << ", radiation length [mm]= "   << m.getRadLength() 
       << ", interaction length [mm]= " << m.getIntLength() 
-      <<  std::noshowpos << std::fixed << std::setprecision(old_precision) << std::dec
+      << std::setprecision(old_precision)
       << std::endl ;
 
+    s.flags( old_flags ) ;
+
     return s ;
   }
 
-- 
2.43.0


From e18e5519f00478c55cf59777f99f812071afb81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:31 +0000
Subject: [PATCH 56/89] fix: comments in XML files are read character by
 character, not as text with entities

---
 src/gearxml/tinyxmlparser.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 311ae5a..5cb9760 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1311,8 +1311,20 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		return 0;
 	}
 	p += strlen( startTag );
-	p = ReadText( p, &value, false, endTag, false, encoding );
-	return p;
+
+	// Comments are not text: white space is kept and entities are not decoded,
+	// the comment is printed as it was read.
+	while ( *p && !StringEqual( p, endTag, false, encoding ) )
+	{
+		value += *p;
+		++p;
+	}
+	if ( !*p )
+	{
+		if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, 0, 0, encoding );
+		return 0;
+	}
+	return p + strlen( endTag );
 }
 
 
-- 
2.43.0


From 10e4a4514a3a3d31d00606b333787b8c2dc5a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:31 +0000
Subject: [PATCH 57/89] fix: white space before the > of an end tag is accepted

---
 src/gearxml/tinyxmlparser.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 5cb9760..1a335c7 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1050,7 +1050,6 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 
     TIXML_STRING endTag ("</");
 	endTag += value;
-	endTag += ">";
 
 	// Check for and read attributes. Also look for an empty
 	// tag or an end tag.
@@ -1084,11 +1083,14 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			if ( !p || !*p )
 				return 0;
 
-			// We should find the end tag now
+			// We should find the end tag now: both </foo> and </foo > are valid.
 			if ( StringEqual( p, endTag.c_str(), false, encoding ) )
 			{
-				p += endTag.length();
-				return p;
+				p = SkipWhiteSpace( p + endTag.length(), encoding );
+				if ( p && *p == '>' )
+					return p+1;
+				if ( document ) document->SetError( TIXML_ERROR_READING_END_TAG, p, data, encoding );
+				return 0;
 			}
 			else
 			{
-- 
2.43.0


From af78e0e11dba136fefc811faeef3f434ce1c3e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 58/89] fix: only complete character references are written to
 XML files unescaped

---
 src/gearxml/tinyxml.cc | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 0217409..276ceb7 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -61,28 +61,27 @@ void TiXmlBase::PutString( const TIXML_STRING& str, TIXML_STRING* outString )
 	{
 		unsigned char c = (unsigned char) str[i];
 
+		// Length of a complete hexadecimal character reference, 0 if there is none.
+		int refLength = 0;
 		if (    c == '&' 
 		     && i < ( (int)str.length() - 2 )
 			 && str[i+1] == '#'
 			 && str[i+2] == 'x' )
+		{
+			int end = i+3;
+			while ( end<(int)str.length() && isxdigit( (unsigned char) str[end] ) )
+				++end;
+			if ( end>i+3 && end<(int)str.length() && str[end] == ';' )
+				refLength = end + 1 - i;
+		}
+
+		if ( refLength )
 		{
 			// Hexadecimal character reference.
 			// Pass through unchanged.
 			// &#xA9;	-- copyright symbol, for example.
-			//
-			// The -1 is a bug fix from Rob Laveaux. It keeps
-			// an overflow from happening if there is no ';'.
-			// There are actually 2 ways to exit this loop -
-			// while fails (error case) and break (semicolon found).
-			// However, there is no mechanism (currently) for
-			// this function to return an error.
-			while ( i<(int)str.length()-1 )
-			{
-				outString->append( str.c_str() + i, 1 );
-				++i;
-				if ( str[i] == ';' )
-					break;
-			}
+			outString->append( str.c_str() + i, refLength );
+			i += refLength;
 		}
 		else if ( c == '&' )
 		{
-- 
2.43.0


From 74f64b462f7afad6b6f11ff8ede4bb1a06208061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:22 +0000
Subject: [PATCH 59/89] fix: a comment in front of the contents of a parameter
 element is not taken as its value

---
 src/gearxml/GearParametersXML.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index b806e6e..96d6ae5 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -233,8 +233,14 @@ namespace gear {
       }      
       catch( ParseException const& ) {
 	
-	if( par->FirstChild() )
-	  value =  par->FirstChild()->Value() ;
+	// the contents is the first text, comments before it don't count
+	const TiXmlNode* child = par->FirstChild() ;
+
+	while( child != 0 && child->ToText() == 0 )
+	  child = child->NextSibling() ;
+
+	if( child != 0 )
+	  value =  child->Value() ;
       }
       
       
-- 
2.43.0


From 51494e2e626eb23fe05afc7aafc10978d3a5ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:03 +0000
Subject: [PATCH 60/89] fix: numbers of a parameter can be separated by any
 white space, not only blanks

---
 src/gearxml/GearParametersXML.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index 96d6ae5..be9961e 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -6,6 +6,7 @@
 
 #include <vector>
 #include <algorithm>
+#include <cctype>
 #include <sstream>
 #include <iomanip>
 
@@ -23,6 +24,11 @@ namespace gear {
     return (double) atof( str.c_str() )  ; 
   }
 
+  /** helper method */
+  static bool isSpace( char c ) {
+    return isspace( (unsigned char) c ) != 0 ;
+  }
+
   /** Helper class for XMLParser
    */
   class Tokenizer{
@@ -244,6 +250,14 @@ namespace gear {
       }
       
       
+      std::string name = getXMLAttribute( par, "name" ) ;
+      std::string type = getXMLAttribute( par, "type" ) ;
+
+      // numbers can be separated by any white space, e.g. line breaks
+      if( type != "string" && type != "StringVec" )
+	std::replace_if( value.begin(), value.end(), isSpace, ' ' ) ;
+
+
       std::vector<std::string> stringValues ;
 
       Tokenizer t( stringValues ,' ') ;
@@ -251,10 +265,6 @@ namespace gear {
       std::for_each( value.begin(), value.end(), t ) ; 
 
 
-      std::string name = getXMLAttribute( par, "name" ) ;
-      std::string type = getXMLAttribute( par, "type" ) ;
-
-
 	  // fg: protect against empty value strings  in the gear file
 	  if( stringValues.size() == 0 && ( type == "int" || type == "double" ) )
 
-- 
2.43.0


From 7bd786f204dd7c3b67c40c037ad941f0bbb358af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 61/89] fix: a text or attribute value without end does not
 make the XML parser read past the file

---
 src/gearxml/tinyxmlparser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 1a335c7..e89b8c6 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -621,6 +621,10 @@ const char* TiXmlBase::ReadText(	const char* p,
 			}
 		}
 	}
+	// the end tag is missing
+	if ( !p || !*p )
+		return 0;
+
 	return p + strlen( endTag );
 }
 
-- 
2.43.0


From 1c474f89364035ed500efeee847e996a8cce2309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 62/89] fix: an XML declaration without end is an error

---
 src/gearxml/tinyxmlparser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index e89b8c6..128642c 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1500,6 +1500,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 		}
 
 		p = SkipWhiteSpace( p, _encoding );
+		if ( !p || !*p )
+			break;
 		if ( StringEqual( p, "version", true, _encoding ) )
 		{
 			TiXmlAttribute attrib;
@@ -1525,6 +1527,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 				++p;
 		}
 	}
+	// the end of the declaration is missing
+	if ( document ) document->SetError( TIXML_ERROR_PARSING_DECLARATION, 0, 0, _encoding );
 	return 0;
 }
 
-- 
2.43.0


From 43662c273bfac31dd72e14564043bca6b3aecb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 63/89] fix: an XML file that is cut off inside an element is
 an error

---
 src/gearxml/tinyxmlparser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 128642c..06591e7 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1085,7 +1085,11 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			++p;
 			p = ReadValue( p, data, encoding );		// Note this is an Element method, and will set the error if one happens.
 			if ( !p || !*p )
+			{
+				// the file ends before the end tag
+				if ( document ) document->SetError( TIXML_ERROR_READING_END_TAG, 0, 0, encoding );
 				return 0;
+			}
 
 			// We should find the end tag now: both </foo> and </foo > are valid.
 			if ( StringEqual( p, endTag.c_str(), false, encoding ) )
-- 
2.43.0


From d9f590198d8cb4fdb1ec307e38070cd1208566bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 64/89] fix: loading a directory or a file with null characters
 as XML is an error

---
 src/gearxml/tinyxml.cc | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 276ceb7..1529780 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -960,33 +960,40 @@ bool TiXmlDocument::LoadFile( const char* filename, TiXmlEncoding encoding )
 
 	if ( file )
 	{
-		// Get the file size, so we can pre-allocate the string. HUGE speed impact.
-		long length = 0;
-		fseek( file, 0, SEEK_END );
-		length = ftell( file );
-		fseek( file, 0, SEEK_SET );
-
-		// Strange case, but good to handle up front.
-		if ( length == 0 )
-		{
-			fclose( file );
-			return false;
-		}
-
 		// If we have a file, assume it is all one big XML file, and read it in.
 		// The document parser may decide the document ends sooner than the entire file, however.
 		TIXML_STRING data;
-		data.reserve( length );
 
 		const int BUF_SIZE = 2048;
 		char buf[BUF_SIZE];
+		size_t n;
 
-		while( fgets( buf, BUF_SIZE, file ) )
+		while( ( n = fread( buf, 1, BUF_SIZE, file ) ) > 0 )
 		{
-			data += buf;
+			data.append( buf, n );
 		}
+		bool failed = ferror( file ) != 0 ;	// e.g. a directory
 		fclose( file );
 
+		if ( failed )
+		{
+			SetError( TIXML_ERROR_OPENING_FILE, 0, 0, TIXML_ENCODING_UNKNOWN );
+			return false;
+		}
+
+		// Strange case, but good to handle up front.
+		if ( data.length() == 0 )
+		{
+			return false;
+		}
+
+		// What follows a null character would be ignored silently.
+		if ( strlen( data.c_str() ) != data.length() )
+		{
+			SetError( TIXML_ERROR_EMBEDDED_NULL, 0, 0, TIXML_ENCODING_UNKNOWN );
+			return false;
+		}
+
 		Parse( data.c_str(), 0, encoding );
 
 		if (  Error() )
-- 
2.43.0


From 8a440d7af52329d35cedb913b2e328de3a2584ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 65/89] fix: deeply nested XML files are refused instead of
 exhausting the stack

---
 src/gearxml/tinyxmlparser.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 06591e7..92e2d4f 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -62,6 +62,9 @@ const unsigned char TIXML_UTF_LEAD_0 = 0xefU;
 const unsigned char TIXML_UTF_LEAD_1 = 0xbbU;
 const unsigned char TIXML_UTF_LEAD_2 = 0xbfU;
 
+// The maximum nesting of elements in a document.
+const int TIXML_MAX_DEPTH = 1000;
+
 const int TiXmlBase::utf8ByteTable[256] = 
 {
 	//	0	1	2	3	4	5	6	7	8	9	a	b	c	d	e	f
@@ -1040,6 +1043,16 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		return 0;
 	}
 
+	// Elements are read recursively: do not let the nesting exhaust the stack.
+	int depth = 0;
+	for ( const TiXmlNode* n = parent; n; n = n->Parent() )
+		++depth;
+	if ( depth > TIXML_MAX_DEPTH )
+	{
+		if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, p, data, encoding );
+		return 0;
+	}
+
 	p = SkipWhiteSpace( p+1, encoding );
 
 	// Read the name.
-- 
2.43.0


From 133ff1449291cee92d59bc5ea3bc628bb79ee078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 66/89] fix: disk pad layouts with a negative number of rows or
 pads are refused

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 10 ++++++++++
 src/gearimpl/FixedPadSizeDiskLayout.cc  |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 244ef27..2d355db 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -35,6 +35,16 @@ namespace gear {
 	  _nPadsInRow( nPadsInRow ) 
   {
     
+    if ( nRow < 0 || nPadsInRow < 0 ) {
+
+      std::stringstream s ;
+      s << " FixedPadAngleDiskLayout: inconsistent parameters"
+	<< " - nRow: " << nRow
+	<< " - nPadsInRow: " << nPadsInRow ;
+
+      throw ParseException( s.str() ) ;
+    }
+
     _rowHeight =  ( rMax - rMin ) / _nRow ;
     _padAngle  =  (phiMax - phiMin) / nPadsInRow;
 
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 3bc63b5..df31a4e 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -82,6 +82,15 @@ namespace gear {
 
     }
 
+    if ( _nRow < 0 ) {
+
+      std::stringstream ss ;
+      ss << " FixedPadSizeDiskLayout: no rows fit between rMin: " << rMin
+	 << " and rMax: " << rMax ;
+
+      throw ParseException( ss.str() ) ;
+    }
+
     _padIndices.resize( _nRow ) ;
     // initialise all pointers to 0
     // this thing is only filled when accessed by getPadsInRow() the first time
-- 
2.43.0


From f4ea3ad5b65b199fe0e0e0071f5f8a86818be712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 67/89] fix: a very large phiMax does not make the pad layout
 wrap it forever; rows with an impossible number of pads are refused

---
 src/gearimpl/FixedPadSizeDiskLayout.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index df31a4e..ea126a1 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -51,8 +51,9 @@ namespace gear {
 
 	// wrap phi to +- 2*pi, which is the max range for phiMin and phiMax
     
-	while( _phiMax < -2.*M_PI ) {  _phiMax += 2. * M_PI  ; }
-    while( _phiMax >  2.*M_PI ) {  _phiMax -= 2. * M_PI  ; }
+    // (in one step, as subtracting 2*pi once does not change very large values)
+    if( _phiMax < -2.*M_PI ) {  _phiMax -= 2. * M_PI * std::floor( _phiMax / ( 2. * M_PI ) + 1. )  ; }
+    if( _phiMax >  2.*M_PI ) {  _phiMax -= 2. * M_PI * std::ceil( _phiMax / ( 2. * M_PI ) - 1. )  ; }
 
 
     _extent.resize(4) ;
@@ -113,6 +114,15 @@ namespace gear {
 
       double u = row.RCenter * _phiMax  ;
 
+      if( ! ( std::fabs( u / (_padWidth + padGap ) ) < 65536. ) ) {
+
+	std::stringstream ss ;
+	ss << " FixedPadSizeDiskLayout: impossible number of pads in row " << i
+	   << ": " << u / (_padWidth + padGap ) ;
+
+	throw ParseException( ss.str() ) ;
+      }
+
       row.NPad = static_cast<int>( std::floor( u / (_padWidth + padGap )  ) );
 
       row.PhiPad = _phiMax  / row.NPad ;
-- 
2.43.0


From d0c3566774f25f76bc9329add28599c66203684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:19 +0000
Subject: [PATCH 68/89] fix: a UTF-8 character that is cut off does not make
 the XML parser read past the text

---
 include/gear/gearxml/tinyxml.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gear/gearxml/tinyxml.h b/include/gear/gearxml/tinyxml.h
index 2882a83..110e08e 100644
--- a/include/gear/gearxml/tinyxml.h
+++ b/include/gear/gearxml/tinyxml.h
@@ -291,6 +291,10 @@ protected:
 		}
 		else if ( *length )
 		{
+			// A character that is cut off must not hide the end of the text.
+			for ( int i=1; i<*length; ++i )
+				if ( !p[i] ) *length = i;
+
 			strncpy( _value, p, *length );
 			return p + (*length);
 		}
-- 
2.43.0


From be446b95f4362644616a3d4c81a82060988e2369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 69/89] fix: a UTF-8 character cut off at the end of the text
 does not make the XML parser loop forever

---
 src/gearxml/tinyxmlparser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 92e2d4f..6eeb88c 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -279,6 +279,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						// Cut off at the end of the text.
+						++p;
+						++col;
+					}
 				}
 				else
 				{
-- 
2.43.0


From 09b96d6b62a7e80b3c37d63511793adad1b7430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 70/89] fix: merging XML files again does not swap the files
 once more; files that are not set are an error

---
 include/gear/gearxml/MergeXML.h |  7 -------
 src/gearxml/MergeXML.cc         | 29 +++++++++++------------------
 2 files changed, 11 insertions(+), 25 deletions(-)

diff --git a/include/gear/gearxml/MergeXML.h b/include/gear/gearxml/MergeXML.h
index ec01d9d..9dbc069 100644
--- a/include/gear/gearxml/MergeXML.h
+++ b/include/gear/gearxml/MergeXML.h
@@ -49,7 +49,6 @@ namespace gear {
     MergeXML() : 
       _file1(NULL),
       _file2(NULL),
-      _fileSwap(NULL),
       _fileMerged(NULL),
       _domFile(2),
       _name(NAME_STR) {
@@ -61,9 +60,6 @@ namespace gear {
     //checks whether file can be read in
     bool checkXML( const std::string& fileName ) ;
 
-    //get files correct: dominant will be _file2 and recessiv will be _file1
-    void correctDominantFile() ;
-
     //compare nodes
     void mergeNode( TiXmlNode* node, TiXmlNode* domNode ) ;
 
@@ -91,9 +87,6 @@ namespace gear {
     //file2
     TiXmlDocument* _file2 ;
 
-    //fileSwap - if dominant changes
-    TiXmlDocument* _fileSwap ;
-
     //fileMerged - final document
     TiXmlDocument* _fileMerged ;
 
diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index f25b50a..d87fc09 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -22,17 +22,6 @@ namespace gear{
   }
 
 
-  void MergeXML::correctDominantFile() {
-    
-    if ( _domFile == 1 ) {
-      _fileSwap = new TiXmlDocument ;
-      *_fileSwap = *_file1 ;
-      *_file1 = *_file2 ;
-      *_file2 = *_fileSwap ;
-    }
-  }
-
-
   bool MergeXML::mergeFiles (const std::string& fileName) {
 
     // debug information
@@ -44,16 +33,20 @@ namespace gear{
     const std::string detectors = "detectors" ;
     const std::string materials = "materials" ;
 
-    // correct the files for dominancy
-    correctDominantFile() ;
+    // both files have to be set
+    if ( _file1 == NULL || _file2 == NULL ) return false ;
+
+    // copy all dominant information in final file - the input files are kept,
+    // so that they can be merged again
+    TiXmlDocument* recFile = ( _domFile == 1 ? _file2 : _file1 ) ;
+    TiXmlDocument* domFile = ( _domFile == 1 ? _file1 : _file2 ) ;
 
-    // copy all dominant information in final file
     _fileMerged = new TiXmlDocument( fileName ) ;
-    *_fileMerged = *_file2 ;
+    *_fileMerged = *domFile ;
     
     // check if files are geartype
-    if ( not ( _file1->FirstChild( gear ) && _fileMerged->FirstChild( gear )
-	       && (_file1->FirstChild( gear ))->FirstChild( detectors ) 
+    if ( not ( recFile->FirstChild( gear ) && _fileMerged->FirstChild( gear )
+	       && (recFile->FirstChild( gear ))->FirstChild( detectors ) 
 	       && (_fileMerged->FirstChild( gear ))->FirstChild( detectors )
 	       )) {
       
@@ -63,7 +56,7 @@ namespace gear{
     }
 
     // go to specified nodes
-    TiXmlNode* nodeGear1      = _file1->FirstChild( gear ) ;
+    TiXmlNode* nodeGear1      = recFile->FirstChild( gear ) ;
     TiXmlNode* nodeGlobal1    = nodeGear1->FirstChild( global ) ;
     TiXmlNode* nodeDetectors1 = nodeGear1->FirstChild( detectors ) ;
     TiXmlNode* nodeMaterials1 = nodeGear1->FirstChild( materials ) ;
-- 
2.43.0


From b790fc62f247669894b605a439b044c42f053166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 71/89] fix: mergeXML keeps sections that only one of the files
 has, instead of crashing or losing them

---
 src/gearxml/MergeXML.cc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index d87fc09..74931d8 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -29,9 +29,7 @@ namespace gear{
 
     // variables
     const std::string gear = "gear" ;
-    const std::string global = "global" ;
     const std::string detectors = "detectors" ;
-    const std::string materials = "materials" ;
 
     // both files have to be set
     if ( _file1 == NULL || _file2 == NULL ) return false ;
@@ -57,19 +55,21 @@ namespace gear{
 
     // go to specified nodes
     TiXmlNode* nodeGear1      = recFile->FirstChild( gear ) ;
-    TiXmlNode* nodeGlobal1    = nodeGear1->FirstChild( global ) ;
-    TiXmlNode* nodeDetectors1 = nodeGear1->FirstChild( detectors ) ;
-    TiXmlNode* nodeMaterials1 = nodeGear1->FirstChild( materials ) ;
-    
     TiXmlNode* nodeGearMerged = _fileMerged->FirstChild( gear ) ;
-    TiXmlNode* nodeGlobalMerged    = nodeGearMerged->FirstChild( global ) ;
-    TiXmlNode* nodeDetectorsMerged = nodeGearMerged->FirstChild( detectors ) ;
-    TiXmlNode* nodeMaterialsMerged = nodeGearMerged->FirstChild( materials ) ;
-    
-    // loop through all nodes
-    mergeNode( nodeGlobal1, nodeGlobalMerged ) ;
-    mergeNode( nodeDetectors1, nodeDetectorsMerged ) ;
-    mergeNode( nodeMaterials1, nodeMaterialsMerged ) ;
+
+    // loop through all sections: global, BField, detectors, materials, ...
+    for( TiXmlElement* section = nodeGear1->FirstChildElement() ; section ; section = section->NextSiblingElement() ) {
+
+      TiXmlElement* sectionMerged = nodeGearMerged->FirstChildElement( section->Value() ) ;
+
+      if( sectionMerged == NULL ) {
+	nodeGearMerged->InsertEndChild( *section ) ;
+      }
+      else {
+	mergeAttribute( section, sectionMerged ) ;
+	mergeNode( section, sectionMerged ) ;
+      }
+    }
     
     // save file
     return _fileMerged->SaveFile( fileName ) ;
-- 
2.43.0


From 787c2afe56b75a43815c44d6678d1d0456271bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 72/89] fix: mergeXML does not crash on named elements without
 children

---
 src/gearxml/MergeXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 74931d8..996ebca 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -155,7 +155,7 @@ namespace gear{
 	  }
  
 	  // start mergeNode for subordniate nodes
-	  if ( hasAttribute(loopNode) && !((loopNode->FirstChild())->ToText()) ) {
+	  if ( hasAttribute(loopNode) && loopNode->FirstChild() && !((loopNode->FirstChild())->ToText()) ) {
 	    mergeNode( loopNode, domChildNode ) ;
 	  }
 	    //else {
-- 
2.43.0


From 97edef4130e09d8d05881363998dc867a730b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:01 +0000
Subject: [PATCH 73/89] fix: mergeXML does not mix up elements with different
 tags, comments and texts

---
 include/gear/gearxml/MergeXML.h |  3 +++
 src/gearxml/MergeXML.cc         | 23 ++++++++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/gear/gearxml/MergeXML.h b/include/gear/gearxml/MergeXML.h
index 9dbc069..0e0cee3 100644
--- a/include/gear/gearxml/MergeXML.h
+++ b/include/gear/gearxml/MergeXML.h
@@ -78,6 +78,9 @@ namespace gear {
     // get the Name of the Node - either as value of the attribute name or as node->Value() 
     std::string getNodeName( TiXmlNode* node ) ;
 
+    // check if the nodes are of the same kind, i.e. can be the same element
+    bool sameKind( TiXmlNode* node1, TiXmlNode* node2 ) ;
+
     // check if the Node has the required attribute
     bool hasAttribute( TiXmlNode* node ) ;
 
diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 996ebca..45b2d3f 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -43,9 +43,9 @@ namespace gear{
     *_fileMerged = *domFile ;
     
     // check if files are geartype
-    if ( not ( recFile->FirstChild( gear ) && _fileMerged->FirstChild( gear )
-	       && (recFile->FirstChild( gear ))->FirstChild( detectors ) 
-	       && (_fileMerged->FirstChild( gear ))->FirstChild( detectors )
+    if ( not ( recFile->FirstChildElement( gear ) && _fileMerged->FirstChildElement( gear )
+	       && (recFile->FirstChildElement( gear ))->FirstChildElement( detectors ) 
+	       && (_fileMerged->FirstChildElement( gear ))->FirstChildElement( detectors )
 	       )) {
       
       // give out information and quit
@@ -54,8 +54,8 @@ namespace gear{
     }
 
     // go to specified nodes
-    TiXmlNode* nodeGear1      = recFile->FirstChild( gear ) ;
-    TiXmlNode* nodeGearMerged = _fileMerged->FirstChild( gear ) ;
+    TiXmlNode* nodeGear1      = recFile->FirstChildElement( gear ) ;
+    TiXmlNode* nodeGearMerged = _fileMerged->FirstChildElement( gear ) ;
 
     // loop through all sections: global, BField, detectors, materials, ...
     for( TiXmlElement* section = nodeGear1->FirstChildElement() ; section ; section = section->NextSiblingElement() ) {
@@ -194,6 +194,13 @@ namespace gear{
   }
 
 
+  // nodes of the same kind: comments, texts, ... or elements with the same tag
+  bool MergeXML::sameKind( TiXmlNode* node1, TiXmlNode* node2 ) {
+
+    return node1->Type() == node2->Type() && std::string( node1->Value() ) == node2->Value() ;
+  }
+
+
   // counts how often nodes appear
   int MergeXML::countNodes( TiXmlNode* childNode, TiXmlNode* parentNode ) {
 
@@ -214,7 +221,8 @@ namespace gear{
       std::string loopName = getNodeName( loopNode ) ;
 
       // if we have to look for name
-      if ( ( loopName == strName ) && ( hasAttribute(childNode) == hasAttribute(loopNode) ) ) {
+      if ( ( loopName == strName ) && ( hasAttribute(childNode) == hasAttribute(loopNode) )
+	   && sameKind( childNode, loopNode ) ) {
 	// count up
 	counter ++ ;
       }
@@ -256,7 +264,8 @@ namespace gear{
 	
 	// if found return
 	// if names and attributes match
-	if( (loopName == searchName) && ( hasAttribute(node) == hasAttribute(loopNode) ) ) {
+	if( (loopName == searchName) && ( hasAttribute(node) == hasAttribute(loopNode) )
+	    && sameKind( node, loopNode ) ) {
 	  occurence ++ ;
 	  // debug information
 	  //std::cout << "      found "<< occurence << " of " << getOccurence << std::endl ;
-- 
2.43.0


From 619824c2dedf124e41426571bcc912267bb1ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 74/89] fix: mergeXML finds repeated elements also if there are
 other elements or comments in between

---
 src/gearxml/MergeXML.cc | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 45b2d3f..7d9d1cf 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -79,10 +79,6 @@ namespace gear{
   // compare nodes
   void MergeXML::mergeNode( TiXmlNode* node, TiXmlNode* domNode ) {
 
-    // during the loop count occurences of same Name
-    int occurence = 0 ;
-    std::string lastName ;
-
 
     // debug information
 //     if ( node->ToComment() ) std::cout << "node is Comment." << std::endl;
@@ -126,14 +122,14 @@ namespace gear{
 	}
 	
 
-	// count occurences of same name
-	if ( lastName == getNodeName( loopNode ) ) {
-	     occurence ++ ;
-	}
-	else {
-	  occurence = 1 ;
+	// count occurences of same name, also if there are other nodes in between
+	int occurence = 1 ;
+	for( TiXmlNode* n = loopNode->PreviousSibling() ; n ; n = n->PreviousSibling() ) {
+	  if( getNodeName( n ) == getNodeName( loopNode ) && hasAttribute( n ) == hasAttribute( loopNode ) 
+	      && sameKind( n, loopNode ) ) {
+	    occurence ++ ;
+	  }
 	}
-	lastName = getNodeName( loopNode ) ;
 
 	// get the appropriate child note from dominant node
 	TiXmlNode* domChildNode = getChildNode( loopNode, domNode, occurence ) ;
-- 
2.43.0


From ab892f78a60a1bbca0923babd4b3062c87405cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:40 +0000
Subject: [PATCH 75/89] fix: mergeXML adds repeated elements the dominant file
 lacks and does not give up on repeated comments

---
 include/gear/gearxml/MergeXML.h |  4 ++--
 src/gearxml/MergeXML.cc         | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/gear/gearxml/MergeXML.h b/include/gear/gearxml/MergeXML.h
index 0e0cee3..5ca2277 100644
--- a/include/gear/gearxml/MergeXML.h
+++ b/include/gear/gearxml/MergeXML.h
@@ -69,8 +69,8 @@ namespace gear {
     // merge childElements where domNode overrules Node
     void mergeAttribute( TiXmlElement* element, TiXmlElement* domElement ) ;
 
-    // count the number of nodes that look like childNode in parentNode
-    int countNodes( TiXmlNode* childNode, TiXmlNode* domNode ) ;
+    // count the number of nodes that look like childNode in parentNode, up to lastNode if it is given
+    int countNodes( TiXmlNode* childNode, TiXmlNode* domNode, TiXmlNode* lastNode = NULL ) ;
 
     // get chilElement with same Attribute name
     TiXmlNode* getChildNode( TiXmlNode* node, TiXmlNode* domNode, int getOccurence = 1 ) ;
diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 7d9d1cf..77634f8 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -93,6 +93,9 @@ namespace gear{
       return ;
     }
 
+    // what comes after this node has been added
+    TiXmlNode* lastDom = domNode->LastChild() ;
+
     // loop through all child nodes
     TiXmlNode* loopNode = 0 ;
     while (( loopNode = ( node->IterateChildren( loopNode ) )))
@@ -101,14 +104,17 @@ namespace gear{
 	//std::cout << " loopNode " << loopNode -> Value() << std::endl ;
 
 	// check how often nodes appear
+	// (added nodes do not count: they come after those of the dominant file)
 	int countRec = countNodes( loopNode, node ) ;
-	int countDom = countNodes( loopNode, domNode ) ;
+	int countDom = ( lastDom ? countNodes( loopNode, domNode, lastDom ) : 0 ) ;
 
 	// debug information
 	//std::cout << " counter in rec: " << countRec << "   counter in dom: " << countDom << std::endl ;
 
 	// if multiple occurences and number does not match throw
-	if ( ((countRec > 1) || (countDom >1)) &&  ( countDom != countRec ) ) {
+	// (comments and texts are not merged and elements the dominant file does not have at all are added)
+	if ( loopNode->ToElement() && countDom > 0 &&
+	     ((countRec > 1) || (countDom >1)) &&  ( countDom != countRec ) ) {
 
 	    // throw 
 	  std::stringstream s ;
@@ -132,7 +138,7 @@ namespace gear{
 	}
 
 	// get the appropriate child note from dominant node
-	TiXmlNode* domChildNode = getChildNode( loopNode, domNode, occurence ) ;
+	TiXmlNode* domChildNode = ( countDom > 0 ? getChildNode( loopNode, domNode, occurence ) : NULL ) ;
 
 	if (domChildNode == NULL ) {
 
@@ -198,7 +204,7 @@ namespace gear{
 
 
   // counts how often nodes appear
-  int MergeXML::countNodes( TiXmlNode* childNode, TiXmlNode* parentNode ) {
+  int MergeXML::countNodes( TiXmlNode* childNode, TiXmlNode* parentNode, TiXmlNode* lastNode ) {
 
     // counter for appearances
     int counter = 0 ;
@@ -223,6 +229,8 @@ namespace gear{
 	counter ++ ;
       }
       
+      if ( loopNode == lastNode ) break ;
+
       loopNode = loopNode->NextSibling() ;
 	
     } // close loop	
-- 
2.43.0


From e50aa1266733d28daa97e6e6fce530fb562eb016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:40 +0000
Subject: [PATCH 76/89] fix: mergeXML does not append texts of the recessive
 file to values of the dominant one

---
 include/gear/gearxml/MergeXML.h |  3 +++
 src/gearxml/MergeXML.cc         | 17 ++++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/gear/gearxml/MergeXML.h b/include/gear/gearxml/MergeXML.h
index 5ca2277..a6e0a4f 100644
--- a/include/gear/gearxml/MergeXML.h
+++ b/include/gear/gearxml/MergeXML.h
@@ -81,6 +81,9 @@ namespace gear {
     // check if the nodes are of the same kind, i.e. can be the same element
     bool sameKind( TiXmlNode* node1, TiXmlNode* node2 ) ;
 
+    // check if the Node has a text
+    bool hasText( TiXmlNode* node ) ;
+
     // check if the Node has the required attribute
     bool hasAttribute( TiXmlNode* node ) ;
 
diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 77634f8..352616b 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -156,8 +156,8 @@ namespace gear{
 	    mergeAttribute( (loopNode->ToElement()), (domChildNode->ToElement()) ) ;
 	  }
  
-	  // start mergeNode for subordniate nodes
-	  if ( hasAttribute(loopNode) && loopNode->FirstChild() && !((loopNode->FirstChild())->ToText()) ) {
+	  // start mergeNode for subordniate nodes - an element with a text is kept as it is
+	  if ( hasAttribute(loopNode) && loopNode->FirstChild() && !hasText( loopNode ) && !hasText( domChildNode ) ) {
 	    mergeNode( loopNode, domChildNode ) ;
 	  }
 	    //else {
@@ -196,6 +196,16 @@ namespace gear{
   }
 
 
+  // check if the node has a text
+  bool MergeXML::hasText( TiXmlNode* node ) {
+
+    for( TiXmlNode* n = node->FirstChild() ; n ; n = n->NextSibling() ) {
+      if( n->ToText() ) return true ;
+    }
+    return false ;
+  }
+
+
   // nodes of the same kind: comments, texts, ... or elements with the same tag
   bool MergeXML::sameKind( TiXmlNode* node1, TiXmlNode* node2 ) {
 
@@ -306,7 +316,8 @@ namespace gear{
 	// get same attribute in dominant element
 	const char* domAttribute = domElement->Attribute( attName ) ;
 
-	if( domAttribute == NULL ) {
+	// (the value of a parameter is an attribute or a text)
+	if( domAttribute == NULL && !( attName == "value" && hasText( domElement ) ) ) {
 
 	  // add to domElement 
 	  domElement->SetAttribute( attName, loopAttribute->Value() ) ;
-- 
2.43.0


From 5821b3ecfc092b1a490ba48fa79164a0bbd1b05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:22 +0000
Subject: [PATCH 77/89] fix: mergeXML matches the sections of a file like other
 elements

---
 include/gear/gearxml/MergeXML.h |  4 ++--
 src/gearxml/MergeXML.cc         | 18 ++++--------------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/include/gear/gearxml/MergeXML.h b/include/gear/gearxml/MergeXML.h
index a6e0a4f..9e7c007 100644
--- a/include/gear/gearxml/MergeXML.h
+++ b/include/gear/gearxml/MergeXML.h
@@ -60,8 +60,8 @@ namespace gear {
     //checks whether file can be read in
     bool checkXML( const std::string& fileName ) ;
 
-    //compare nodes
-    void mergeNode( TiXmlNode* node, TiXmlNode* domNode ) ;
+    //compare nodes - the contents of sections are always merged, those of other elements if they have a name
+    void mergeNode( TiXmlNode* node, TiXmlNode* domNode, bool sections = false ) ;
 
     // merge childsNodes where domNode overrules Node
     void mergeElement( TiXmlNode* node, TiXmlNode* domNode ) ;
diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 352616b..200c9c2 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -58,18 +58,7 @@ namespace gear{
     TiXmlNode* nodeGearMerged = _fileMerged->FirstChildElement( gear ) ;
 
     // loop through all sections: global, BField, detectors, materials, ...
-    for( TiXmlElement* section = nodeGear1->FirstChildElement() ; section ; section = section->NextSiblingElement() ) {
-
-      TiXmlElement* sectionMerged = nodeGearMerged->FirstChildElement( section->Value() ) ;
-
-      if( sectionMerged == NULL ) {
-	nodeGearMerged->InsertEndChild( *section ) ;
-      }
-      else {
-	mergeAttribute( section, sectionMerged ) ;
-	mergeNode( section, sectionMerged ) ;
-      }
-    }
+    mergeNode( nodeGear1, nodeGearMerged, true ) ;
     
     // save file
     return _fileMerged->SaveFile( fileName ) ;
@@ -77,7 +66,7 @@ namespace gear{
 
 
   // compare nodes
-  void MergeXML::mergeNode( TiXmlNode* node, TiXmlNode* domNode ) {
+  void MergeXML::mergeNode( TiXmlNode* node, TiXmlNode* domNode, bool sections ) {
 
 
     // debug information
@@ -157,7 +146,8 @@ namespace gear{
 	  }
  
 	  // start mergeNode for subordniate nodes - an element with a text is kept as it is
-	  if ( hasAttribute(loopNode) && loopNode->FirstChild() && !hasText( loopNode ) && !hasText( domChildNode ) ) {
+	  if ( ( hasAttribute(loopNode) || ( sections && loopNode->ToElement() ) ) && loopNode->FirstChild() 
+	       && !hasText( loopNode ) && !hasText( domChildNode ) ) {
 	    mergeNode( loopNode, domChildNode ) ;
 	  }
 	    //else {
-- 
2.43.0


From 3096927559303c51ff366208197e0c00d524d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:33 +0000
Subject: [PATCH 78/89] fix: material maps compute all points of their grid,
 counting steps instead of adding them up

---
 src/geartgeo/MaterialMap.cc | 42 +++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/geartgeo/MaterialMap.cc b/src/geartgeo/MaterialMap.cc
index 70755df..da835f4 100644
--- a/src/geartgeo/MaterialMap.cc
+++ b/src/geartgeo/MaterialMap.cc
@@ -50,35 +50,35 @@ namespace gear {
     const GearDistanceProperties &gDP=gearMgr->getDistanceProperties();
     _xmin   =xmin    ;   
     _xmax   =xmax    ;
-    _nxsteps=nxsteps ;
+    _nxsteps=(xmin<xmax ? nxsteps : 0) ;//a single value needs no steps
     _ymin   =ymin    ;
     _ymax   =ymax    ;
-    _nysteps=nysteps ;
+    _nysteps=(ymin<ymax ? nysteps : 0) ;//a single value needs no steps
     _zmin   =zmin    ;
     _zmax   =zmax    ;
-    _nzsteps=nzsteps ;  
+    _nzsteps=(zmin<zmax ? nzsteps : 0) ;//a single value needs no steps  
     
     //setting the sizes of the matrix
-    _myMap.resize(nxsteps+1);
-    for(int s=0;s<=nxsteps;++s)
+    _myMap.resize(_nxsteps+1);
+    for(int s=0;s<=_nxsteps;++s)
       {
- 	_myMap[s].resize(nysteps+1);
- 	for(int s2=0;s2<=nysteps;++s2)
- 	  _myMap[s][s2].resize(nzsteps+1);
+ 	_myMap[s].resize(_nysteps+1);
+ 	for(int s2=0;s2<=_nysteps;++s2)
+ 	  _myMap[s][s2].resize(_nzsteps+1);
       }
    
-    if(nxsteps==0)
+    if(_nxsteps==0)
       _xstep=1;
     else
-      _xstep=(xmax-xmin)/nxsteps;
-    if(nysteps==0)
+      _xstep=(xmax-xmin)/_nxsteps;
+    if(_nysteps==0)
       _ystep=1;
     else
-      _ystep=(ymax-ymin)/nysteps;
-    if(nzsteps==0)
+      _ystep=(ymax-ymin)/_nysteps;
+    if(_nzsteps==0)
       _zstep=1;
     else
-      _zstep=(zmax-zmin)/nzsteps;
+      _zstep=(zmax-zmin)/_nzsteps;
     
     Vector3D initial,final;
     //always vertex as reference point
@@ -86,12 +86,16 @@ namespace gear {
     initial[1]=0;
     initial[2]=0;
     
-    for(double x= xmin;x<=xmax;x+=_xstep)//or r
+    //count the steps instead of adding them up - otherwise rounding errors can skip the last grid points 
+    for(int ix=0;ix<=_nxsteps;++ix)//or r
       {
-	for(double y= ymin;y<=ymax;y+=_ystep)// or phi or theta
+	const double x=xmin+ix*_xstep;
+	for(int iy=0;iy<=_nysteps;++iy)// or phi or theta
 	  {
-	    for(double z= zmin;z<=zmax;z+=_zstep) //or theta
+	    const double y=ymin+iy*_ystep;
+	    for(int iz=0;iz<=_nzsteps;++iz) //or theta
 	      {
+		const double z=zmin+iz*_zstep;
 		//GearDistanceProperties need coordinates in cartesian x,y,z
 		switch (coord)
 		  {
@@ -129,9 +133,7 @@ namespace gear {
 		    _values.first=gDP.getNRadlen( initial, final);
 		    _values.second=gDP.getNIntlen( initial, final);     
 		  }
-		std::vector<int> pos;
-		calculateGridIndex(pos,x,y,z);
-		_myMap[pos[0]][pos[1]][pos[2]]=_values;
+		_myMap[ix][iy][iz]=_values;
 	      }//z
 	  }//y
       }//x
-- 
2.43.0


From 5b3b70175fe168700bef7159a487f193af0fd0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:33 +0000
Subject: [PATCH 79/89] fix: material maps interpolate up to the last grid
 points, whatever their rounding errors

---
 src/geartgeo/MaterialMap.cc | 51 ++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/geartgeo/MaterialMap.cc b/src/geartgeo/MaterialMap.cc
index da835f4..6d8a3d7 100644
--- a/src/geartgeo/MaterialMap.cc
+++ b/src/geartgeo/MaterialMap.cc
@@ -8,6 +8,20 @@
 
 namespace gear {
 
+  namespace {
+    // numbers of the one or two grid points next to x on one axis
+    int findNeighbours(int n[2], double x, double min, double step, int nsteps)
+    {
+      n[0]=int(floor((x-min)/step));
+      if(n[0]<0)
+	n[0]=0;
+      if(n[0]>nsteps)
+	n[0]=nsteps;
+      n[1]=n[0]+1;
+      return (n[1]<=nsteps ? 2 : 1);
+    }
+  }
+
   MaterialMap::MaterialMap(GearMgr *gearMgr,double xmin, double xmax, int nxsteps,
 			   double ymin, double ymax, int nysteps,
 			   double zmin, double zmax, int nzsteps, int coord)
@@ -173,28 +187,19 @@ namespace gear {
 
   void MaterialMap::interpolateOnGrid(std::pair<double,double> &result, double x, double y, double z) const
   {
-    //find eight neighbouring grid points
+    //find eight neighbouring grid points - by number, as rounding errors of their positions
+    //must not move the last ones out of the grid
+    int nx[2],ny[2],nz[2];
+    const int xcount=findNeighbours(nx,x,_xmin,_xstep,_nxsteps);
+    const int ycount=findNeighbours(ny,y,_ymin,_ystep,_nysteps);
+    const int zcount=findNeighbours(nz,z,_zmin,_zstep,_nzsteps);
     double px[2],py[2],pz[2];
-    px[0]=x-fmod(x-_xmin,_xstep);
-    px[1]=px[0]+_xstep;
-    py[0]=y-fmod(y-_ymin,_ystep);
-    py[1]=py[0]+_ystep;
-    pz[0]=z-fmod(z-_zmin,_zstep);
-    pz[1]=pz[0]+_zstep;
-    //check wether they are within grid
-    int xcount=0,ycount=0,zcount=0;
-    if(_xmin<=px[0] && px[0]<=_xmax) 
-      xcount++;      
-    if(_xmin<=px[1] && px[1]<=_xmax)
-      xcount++;
-    if(_ymin<=py[0] && py[0]<=_ymax)
-      ycount++;
-    if(_ymin<=py[1] && py[1]<=_ymax)
-      ycount++;
-    if(_zmin<=pz[0] && pz[0]<=_zmax)
-      zcount++;
-    if(_zmin<=pz[1] && pz[1]<=_zmax)
-      zcount++;
+    for(int i=0;i<2;i++)
+      {
+	px[i]=_xmin+nx[i]*_xstep;
+	py[i]=_ymin+ny[i]*_ystep;
+	pz[i]=_zmin+nz[i]*_zstep;
+      }
     //calculate distances from x,y,z to each neighbour
     int counter=0;
     double sumIntL=0,sumRadL=0,sumWeight=0;
@@ -206,9 +211,7 @@ namespace gear {
 	    for(int iz=0;iz<zcount;iz++)
 	      {
 		double d=sqrt((x-px[ix])*(x-px[ix])+(y-py[iy])*(y-py[iy])+(z-pz[iz])*(z-pz[iz]));
-		std::vector<int>  gpos;
-		calculateGridIndex(gpos,px[ix],py[iy],pz[iz]);
-		std::pair<double,double> vals=_myMap[gpos[0]][gpos[1]][gpos[2]];
+		const std::pair<double,double> &vals=_myMap[nx[ix]][ny[iy]][nz[iz]];
 		counter++;
 		if(fabs(d)<1e-5)//point in querry is a grid point
 		  {
-- 
2.43.0


From 55d30ccb5bcb43b4a8220bde4eb019516e17a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:33 +0000
Subject: [PATCH 80/89] fix: the material map factory distinguishes maps by
 their coordinate system

---
 src/geartgeo/MaterialMapFactory.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geartgeo/MaterialMapFactory.cc b/src/geartgeo/MaterialMapFactory.cc
index 243875c..8cb8282 100644
--- a/src/geartgeo/MaterialMapFactory.cc
+++ b/src/geartgeo/MaterialMapFactory.cc
@@ -16,9 +16,9 @@ namespace gear {
 					 double zmin, double zmax, int nzsteps, 
 					 int coord)
   {
-    double gridA[]={xmin,xmax,double(nxsteps),ymin,ymax,double(nysteps),zmin,zmax,double(nzsteps)};
+    double gridA[]={xmin,xmax,double(nxsteps),ymin,ymax,double(nysteps),zmin,zmax,double(nzsteps),double(coord)};
     std::vector<double> gridV;
-    gridV.assign(gridA,gridA+9);
+    gridV.assign(gridA,gridA+10);
 
     if(_managerMap.find(gridV)==_managerMap.end())
 	_managerMap[gridV]=new MaterialMap(_gearMgr,xmin,xmax,nxsteps,ymin,ymax,nysteps,zmin,zmax,nzsteps,coord);
-- 
2.43.0


From 58c4c08b24ffe98fe5432ae21df0ee36c7d08e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:33 +0000
Subject: [PATCH 81/89] fix: the last piece of a line before it leaves the
 world is counted as material

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index a27cf66..2e772d7 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -61,9 +61,6 @@ namespace gear {
 	TVirtualGeoTrack *track; 
 	node2 = _tgeomanager->FindNextBoundaryAndStep(500, 1) ;
 	
-	if(!node2 || _tgeomanager->IsOutside())
-	  break;
-	
 	const double *position =(double*) _tgeomanager->GetCurrentPoint();
 	const double *previouspos =(double*) _tgeomanager->GetLastPoint();
 	double length=_tgeomanager->GetStep();
@@ -72,7 +69,7 @@ namespace gear {
 	//work around until solution within root can be found when the step gets very small e.g. 1e-10
 	//and the next boundary is never reached
 	
-	if(length<MINSTEP)
+	if(length<MINSTEP && node2 && !_tgeomanager->IsOutside())
 	  {
 	    _tgeomanager->SetCurrentPoint(position[0]+MINSTEP*direction[0], position[1]+MINSTEP*direction[1], position[2]+MINSTEP*direction[2]);
 	    length=_tgeomanager->GetStep();
@@ -121,6 +118,9 @@ namespace gear {
 	_intLen.push_back(node1->GetMedium()->GetMaterial()->GetIntLen());
 	_radLen.push_back(node1->GetMedium()->GetMaterial()->GetRadLen());
 	
+	if(!node2 || _tgeomanager->IsOutside())
+	  break;
+	
 	node1=node2;
       }
     _tgeomanager->ClearTracks();
-- 
2.43.0


From 23c5661eac45a48dae5087290be6feb6882ab978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:33 +0000
Subject: [PATCH 82/89] fix: the step after a too short step is the one that
 counts as material

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index 2e772d7..611e7f8 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -72,12 +72,14 @@ namespace gear {
 	if(length<MINSTEP && node2 && !_tgeomanager->IsOutside())
 	  {
 	    _tgeomanager->SetCurrentPoint(position[0]+MINSTEP*direction[0], position[1]+MINSTEP*direction[1], position[2]+MINSTEP*direction[2]);
-	    length=_tgeomanager->GetStep();
+	    //the step that counts is the next one, through the node reached by the short one
+	    node1 = node2 ;
 	    node2 = _tgeomanager->FindNextBoundaryAndStep(500, 1) ;
 
 	    //fg: need to update positions as well !?
 	    position = (const double*) _tgeomanager->GetCurrentPoint();
 	    previouspos = (const double*) _tgeomanager->GetLastPoint();
+	    length=_tgeomanager->GetStep();
 
 	  }
 
-- 
2.43.0


From 21fb803cb0fa7030249db4392dd62c156d6ad2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:33 +0000
Subject: [PATCH 83/89] fix: asking for material between a point and itself or
 outside of the world does not change later answers

---
 src/geartgeo/TGeoGearDistanceProperties.cc | 27 ++++++++--------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index 611e7f8..77e784e 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -30,7 +30,9 @@ namespace gear {
       _intLen.clear();
       _radLen.clear();
     }
-    
+    //nothing is between a point and itself
+    if(p0==p1)
+      return;
 
     // printf( " ----- beamOn  called :  %1.8e   %1.8e   %1.8e   %1.8e   %1.8e   %1.8e \n" , 
     // 	    p0[0], p0[1], p0[2], p1[0], p1[1], p1[2] ) ;
@@ -52,8 +54,11 @@ namespace gear {
     _tgeomanager->AddTrack(0,12);
     TGeoNode *node1 = _tgeomanager->InitTrack(startpoint, direction);
     //check if there is a node at startpoint
-    if(!node1)
+    if(!node1) {
+      //nothing has been computed for these points
+      _p1=_p0;
       throw OutsideGeometryException("No geometry node found at given location. Either there is no node placed here or position is outside of top volume.");
+    }
     
     while (!_tgeomanager->IsOutside()) 
       {
@@ -133,11 +138,7 @@ namespace gear {
    */
   const std::vector<std::string>&  TGeoGearDistanceProperties::getMaterialNames(const Vector3D & p0, const Vector3D & p1) const {
     
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _matNames.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _matNames;
   }
@@ -146,11 +147,7 @@ namespace gear {
    */
   const std::vector<std::string>  TGeoGearDistanceProperties::getVolumeNames(const Vector3D & p0, const Vector3D & p1) const {
     
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _volNames.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _volNames;
   }
@@ -160,11 +157,7 @@ namespace gear {
    */
   const std::vector<double>&  TGeoGearDistanceProperties::getMaterialThicknesses(const Vector3D & p0, const Vector3D & p1) const {
         
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _distance.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _distance;
   }
-- 
2.43.0


From 989f261754921c790ba08fc90963880cf7e84a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:33 +0000
Subject: [PATCH 84/89] fix: the local position of a point is the one in the
 volume at that point, not in that of the last question

---
 src/geartgeo/TGeoGearPointProperties.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geartgeo/TGeoGearPointProperties.cc b/src/geartgeo/TGeoGearPointProperties.cc
index 133ba11..effa70f 100644
--- a/src/geartgeo/TGeoGearPointProperties.cc
+++ b/src/geartgeo/TGeoGearPointProperties.cc
@@ -139,6 +139,10 @@ namespace gear {
     const Double_t global[3]={pos[0],pos[1],pos[2]};
     Double_t local[3];
 
+    // go to the volume at pos - otherwise the result is that of the last query's volume
+    if(!_tgeomanager->FindNode(pos[0],pos[1],pos[2]))
+      throw OutsideGeometryException("No geometry node found at given location. Either there is no node placed here or position is outside of top volume.");
+
     _tgeomanager->MasterToLocal(global, local);
     
     return Vector3D(local[0],local[1],local[2]) ;
-- 
2.43.0


From 873209e207f8aa8764c99b970ae920dbd72f9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:44 +0000
Subject: [PATCH 85/89] fix: the centre of a pad in a row that does not exist
 is an error, not a read outside the layout

---
 src/gearimpl/FixedPadSizeDiskLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index ea126a1..ea6c636 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -219,9 +219,9 @@ namespace gear {
     int rowNum =  getRowNumber( padIndex ) ;
     int padNum =  getPadNumber( padIndex ) ;
 
-    double r = _rows[ rowNum ].RCenter ;
+    double r = _rows.at( rowNum ).RCenter ;
 
-    double phi =  ( padNum + 0.5 ) * _rows[ rowNum ].PhiPad ;
+    double phi =  ( padNum + 0.5 ) * _rows.at( rowNum ).PhiPad ;
 
     return Vector2D( r , phi ) ;
 //     return std::make_pair( r , phi ) ;
-- 
2.43.0


From 0258664b1f11eba92b0f591cc215eafb71fac340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:38 +0000
Subject: [PATCH 86/89] fix: setting the same XML handler again does not delete
 it

---
 src/gearxml/XMLHandlerMgr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/XMLHandlerMgr.cc b/src/gearxml/XMLHandlerMgr.cc
index b519a23..a17dc0b 100644
--- a/src/gearxml/XMLHandlerMgr.cc
+++ b/src/gearxml/XMLHandlerMgr.cc
@@ -73,7 +73,8 @@ namespace gear{
     
     if( it != _map.end()  ) {
       
-      delete it->second ;
+      if( it->second != handler )
+	delete it->second ;
       
       it->second = handler ;
       
-- 
2.43.0


From 129b7f3e64241d10582262c9ef15c5459b6cca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:43 +0000
Subject: [PATCH 87/89] fix: the phi range of a module with a corner at the
 origin is not limited by the angle of that corner

---
 src/gearimpl/TPCModuleImpl.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 2f71b1e..ada663d 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -634,8 +634,18 @@ namespace gear {
 	    // so one can compare them (which in generell is not possible as the angles
 	    // are only defined to modulo 2pi )
 
-	    
-	    if ( globalOriginInLocal[0] >= localExtent[1] )
+	    // A corner at the global origin has no angle which could limit the range.
+	    bool cornerAtOrigin = false;
+	    for (int i=0; i<4; i++)
+	    {
+		if ( edges_global[i][0] <= 1e-7 * localExtent[1] ) cornerAtOrigin = true;
+	    }
+
+	    if ( cornerAtOrigin )
+	    {
+		phiMin=0; phiMax=2*M_PI;
+	    }
+	    else if ( globalOriginInLocal[0] >= localExtent[1] )
 	    {
 	        // Note: one cannot use _offset directly because the x coordinate might be 
 	        // inverted for negative half TPC. Just let loicalToGlobal take care of it.
-- 
2.43.0


From 8f98034cc5f4e45f2d0fca6e942d080b0394409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:43 +0000
Subject: [PATCH 88/89] fix: the thickness of a ladder under an angle takes
 phi0 and the side the line leaves through into account

---
 src/gearimpl/ZPlanarLayerLayout.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/ZPlanarLayerLayout.cc b/src/gearimpl/ZPlanarLayerLayout.cc
index 042c45e..b06308e 100644
--- a/src/gearimpl/ZPlanarLayerLayout.cc
+++ b/src/gearimpl/ZPlanarLayerLayout.cc
@@ -137,19 +137,23 @@ namespace gear{
 
     // check if angle is withhin outer boundaries - easy calculation then
     if( phi >= getStartOuterPhi( layerIndex , sensitive ) && phi <= getEndOuterPhi( layerIndex , sensitive ) ) {
-      return ( l.Thickness / cos( phi ) ) ;
+      return ( l.Thickness / cos( phi - l.internalPhi0 ) ) ;
     }
 
     // the angel is in corner area:
 
+    // angle with respect to the ladder's normal, and the side where the line leaves the ladder
+    double relPhi = phi - l.internalPhi0 ;
+    double side = ( relPhi > 0 ? l.Width/2 : -l.Width/2 ) - l.Offset ;
+
     // calculate distance from space point to intersection point with straight line from IP under phi
-    double distanceSpacePoint = l.Distance * tan( phi ) ;
+    double distanceSpacePoint = l.Distance * tan( relPhi ) ;
     
     // calculate length of edge that is cut away on side facing IP
-    double cutAwayLength = l.Width/2 - l.Offset - distanceSpacePoint ;
+    double cutAwayLength = side - distanceSpacePoint ;
 
     // now one can calculate the angular thickness
-    angularThickness = cutAwayLength / sin( phi ) ;
+    angularThickness = cutAwayLength / sin( relPhi ) ;
 
     return angularThickness ;
   }    
-- 
2.43.0


From 1e1d3e9ef03e510bf4de83a4f0ec58a3b6909db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:41 +0000
Subject: [PATCH 89/89] fix: rows of a fixed pad size layout that are too short
 for a pad, and layouts without any pads, are not looked up

---
 src/gearimpl/FixedPadAngleDiskLayout.cc |  3 +++
 src/gearimpl/FixedPadSizeDiskLayout.cc  | 22 ++++++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 2d355db..5ffb656 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -359,6 +359,9 @@ namespace gear {
 
   bool FixedPadAngleDiskLayout::isInsidePad(double r, double phi) const {
 
+      if( _nRow < 1 || _nPadsInRow < 1 )
+	  return false ;
+
       double phiMean = (_phiMax+_phiMin)/2.;
 
       // wrap phi to a symmetric range of 2*pi around the mean angle of the layout
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index ea6c636..d086211 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -281,6 +281,14 @@ namespace gear {
 	if (fabs(r) < 1e-6)
 	  throw Exception("FixedPadSizeDiskLayout::getNearestPad: r can't be zero !");
 
+	// the innermost rows can be too short for a single pad
+	int firstRow = 0;
+	while( firstRow < _nRow && _rows[ firstRow ].NPad < 1 )
+	  ++firstRow;
+
+	if( firstRow >= _nRow )
+	  throw Exception("FixedPadSizeDiskLayout::getNearestPad: no pads defined !");
+
 	// Initialise with the radius itself. In case of a full circle there is no 
 	// phiMin or phiMax, just to avoid compiler warnings
 	double rProjectedOnPhiMax = r;
@@ -317,6 +325,9 @@ namespace gear {
 	
 	if ( r > 0. && phi >= 0. && phi <= _phiMax) {
 	  rowNum = r < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
+
+	  if( rowNum < firstRow )
+		rowNum = firstRow ;
   
 	  if( rowNum >= _nRow  )
 		rowNum = _nRow -1 ;
@@ -342,7 +353,7 @@ namespace gear {
 	else if ( rProjectedOnPhiMin < _rMin && phi < 0 ) {
 	  //std::cout << "r < _rMin && phi < 0" << std::endl;
 	  
-	  rowNum = 0;
+	  rowNum = firstRow;
 	  padNum = 0;
 	}
 	
@@ -356,7 +367,7 @@ namespace gear {
 	else if ( rProjectedOnPhiMax < _rMin && phi > _phiMax ) {
 	  //std::cout << "r < _rMin * cos(phi - _phiMax) && phi > _phiMax" << std::endl;
 	  
-	  rowNum = 0;
+	  rowNum = firstRow;
 	  padNum = _rows[ rowNum ].NPad  - 1 ;
 	}
 
@@ -374,7 +385,7 @@ namespace gear {
 	  
 	  rowNum = (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
 
-	  rowNum = rowNum < 0 ? 0 : rowNum;
+	  rowNum = rowNum < firstRow ? firstRow : rowNum;
 	  rowNum = rowNum >= _nRow ? _nRow -1 : rowNum;
 	
 	  padNum = 0;
@@ -387,7 +398,7 @@ namespace gear {
 	  
 	  rowNum = (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
 	  
-	  rowNum = rowNum < 0 ? 0 : rowNum;
+	  rowNum = rowNum < firstRow ? firstRow : rowNum;
 	  rowNum = rowNum >= _nRow ? _nRow -1 : rowNum;
 	
 	  padNum = _rows[ rowNum ].NPad  - 1 ;
@@ -556,6 +567,9 @@ namespace gear {
 
   bool FixedPadSizeDiskLayout::isInsidePad(double r, double phi) const {
 
+    if( _nPad < 1 )
+      return false ;
+
     if( r < _rMin || r > _rMax )
       return false ;
 
-- 
2.43.0

