G='src/gearimpl/'; X='src/gearxml/'
SEEDS=[
dict(id='p01-prefix-key',prop='P01',edits=[(G+'GearParametersImpl.cc','''    DoubleMap::const_iterator it = _doubleMap.find( key ) ;
    if( it == _doubleMap.end() )
      throw UnknownParameterException( key ) ;
    return it->second ;
  }
  
  const std::string &''','''    DoubleMap::const_iterator it = _doubleMap.lower_bound( key ) ;
    if( it == _doubleMap.end() || it->first.compare( 0, key.size(), key ) != 0 )
      throw UnknownParameterException( key ) ;
    return it->second ;
  }
  
  const std::string &''')],needs='reading a double key that was never set but is a proper prefix of a set key',what='the value of the longer key is returned instead of an UnknownParameterException',
 inc='#include "gearimpl/GearParametersImpl.h"',demo='''gear::GearParametersImpl p; p.setDoubleVal("width2",3.); bool t=false;
 try{ p.getDoubleVal("width"); }catch(gear::UnknownParameterException&){t=true;} CHECK(t);'''),
dict(id='p01-empty-overwrite',prop='P01',edits=[(G+'GearParametersImpl.cc','''    _stringVecMap[ key ] = vals ;''','''    std::vector<std::string>& stored = _stringVecMap[ key ] ;
    if( vals.size() < stored.size() )
      std::copy( vals.begin(), vals.end(), stored.begin() ) ;
    else
      stored = vals ;''')],needs='overwriting a string vector with a shorter one',what='the tail of the old vector survives an overwrite with a shorter vector',
 inc='#include "gearimpl/GearParametersImpl.h"',demo='''gear::GearParametersImpl p; std::vector<std::string> a={"a","b"},b={"c"}; p.setStringVals("k",a); p.setStringVals("k",b); CHECK(p.getStringVals("k")==b);'''),
dict(id='p02-negative-angle',prop='P02',edits=[(G+'GearMgrImpl.cc','''      beamcalParameters->getDoubleVal("beam_crossing_angle") ;
''','''      if( ! ( beamcalParameters->getDoubleVal("beam_crossing_angle") >= 0. ) )
	throw UnknownParameterException( "beam_crossing_angle" ) ;
''')],needs='a BeamCal whose own beam crossing angle is negative',what='a negative beam crossing angle of the BeamCal is replaced by 0 when it is stored in the manager',
 inc='#include "gearimpl/GearMgrImpl.h"\n#include "gearimpl/CalorimeterParametersImpl.h"',demo='''gear::GearMgrImpl m; auto* c=new gear::CalorimeterParametersImpl(1.,2.,3.,8,0.); c->setDoubleVal("beam_crossing_angle",-14.); m.setBeamCalParameters(c);
 NEAR(m.getBeamCalParameters().getDoubleVal("beam_crossing_angle"),-14.);'''),
dict(id='p02-ring-fallback',prop='P02',edits=[(G+'GearMgrImpl.cc','''    if( _hcalRingParameters == 0 )
      throw UnknownParameterException( "No HcalRingParameters set ") ;

    return  *_hcalRingParameters ;''','''    const CalorimeterParameters* ring = _hcalRingParameters ;

    // an endcap alone describes the region of the ring as well
    if( ring == 0 && _hcalBarrelParameters == 0 )
      ring = _hcalEndcapParameters ;

    if( ring == 0 )
      throw UnknownParameterException( "No HcalRingParameters set ") ;

    return  *ring ;''')],needs='hcal endcap stored, hcal barrel and hcal ring not',what='the unset hcal ring slot hands out the endcap',
 inc='#include "gearimpl/GearMgrImpl.h"\n#include "gearimpl/CalorimeterParametersImpl.h"',demo='''gear::GearMgrImpl m; m.setHcalEndcapParameters(new gear::CalorimeterParametersImpl(1.,2.,3.,8,0.)); bool t=false;
 try{ m.getHcalRingParameters(); }catch(gear::UnknownParameterException&){t=true;} CHECK(t);'''),
dict(id='p02-material-replaced',prop='P02',edits=[(G+'GearMgrImpl.cc','''    if( it!= _matMap.end() ){
      
      std::stringstream mess ;''','''    if( it!= _matMap.end() && it->second->getDensity() == material->getDensity() ){
      
      std::stringstream mess ;''')],needs='registering a second material of the same name with another density',what='the second material of a name silently replaces (and leaks) the first',
 inc='#include "gearimpl/GearMgrImpl.h"\n#include "gearimpl/SimpleMaterialImpl.h"',demo='''gear::GearMgrImpl m; auto*a=new gear::SimpleMaterialImpl("Fe",56,26,7.8,1.7,16.); auto*b=new gear::SimpleMaterialImpl("Fe",56,26,7.9,1.7,16.);
 m.registerSimpleMaterial(a); bool t=false; try{ m.registerSimpleMaterial(b); }catch(gear::Exception&){t=true;} CHECK(t); NEAR(m.getSimpleMaterial("Fe").getDensity(),7.8); delete b;'''),
dict(id='p03-cell1-repeat',prop='P03',edits=[(X+'CalorimeterParametersXML.cc','''	( ! isEqual( curCell1,     layerLayout.getCellSize1(i) )         ) ;''','''	( ! isEqual( curCell1,     layerLayout.getCellSize1(i) ) && curCell1 != curCell0 ) ;''')],needs='two consecutive layers, the first with square cells, that differ in cell size 1 only',what='the cell size 1 of a run of layers with square cells is overwritten by that of the following layer',
 inc='#include "gearimpl/GearMgrImpl.h"\n#include "gearimpl/CalorimeterParametersImpl.h"\n#include "gearxml/GearXML.h"',demo='''gear::GearMgrImpl m; auto*c=new gear::CalorimeterParametersImpl(10.,20.,8,0.); c->layerLayout().positionLayer(10.,1.,5.,5.,.5); c->layerLayout().addLayer(1.,5.,7.,.5); m.setEcalBarrelParameters(c);
 gear::GearXML::createXMLFile(&m,"o.xml"); gear::GearXML x("o.xml"); auto*r=x.createGearMgr(); auto&l=r->getEcalBarrelParameters().getLayerLayout(); CHECK(l.getNLayers()==2); NEAR(l.getCellSize1(0),5.); NEAR(l.getCellSize1(1),7.);'''),
dict(id='p03-barrel-ring',prop='P03',edits=[(X+'CalorimeterParametersXML.cc','''	if( caloName.find("ring" ) != std::string::npos ){

	  gearMgr''','''	if( caloName.find("ring" ) != std::string::npos && ! isBarrelCalorimeter ){

	  gearMgr''')],needs='a barrel-like hcal ring',what='a barrel-like hcal ring is read into the hcal barrel slot',also=['P06'],
 inc='#include "gearimpl/GearMgrImpl.h"\n#include "gearimpl/CalorimeterParametersImpl.h"\n#include "gearxml/GearXML.h"',demo='''gear::GearMgrImpl m; auto*c=new gear::CalorimeterParametersImpl(10.,20.,8,0.); c->layerLayout().positionLayer(10.,1.,5.,5.,.5); m.setHcalRingParameters(c);
 gear::GearXML::createXMLFile(&m,"o.xml"); gear::GearXML x("o.xml"); auto*r=x.createGearMgr(); NEAR(r->getHcalRingParameters().getExtent()[0],10.);'''),
dict(id='p03-empty-string',prop='P03',edits=[(X+'GearParametersXML.cc','''      param.SetAttribute( "value", gearParams->getStringVal( stringKeys[i] )  ) ;
''','''      if( gearParams->getStringVal( stringKeys[i] ).find_first_not_of( ' ' ) == std::string::npos )
	continue ;

      param.SetAttribute( "value", gearParams->getStringVal( stringKeys[i] )  ) ;
''')],needs='a string parameter that is empty or blank',what='string parameters without any non-blank character are not written',
 inc='#include "gearimpl/GearMgrImpl.h"\n#include "gearimpl/GearParametersImpl.h"\n#include "gearxml/GearXML.h"',demo='''gear::GearMgrImpl m; auto*c=new gear::GearParametersImpl; c->setStringVal("k",""); m.setGearParameters("n",c);
 gear::GearXML::createXMLFile(&m,"o.xml"); gear::GearXML x("o.xml"); auto*r=x.createGearMgr(); CHECK(r->getGearParameters("n").getStringKeys().size()==1);'''),
dict(id='p10-almost-full-circle',prop='P10',edits=[(G+'FixedPadSizeDiskLayout.cc','''	  if (fabs(_phiMax - 2*M_PI) < 1e-6)
		pn = nPad - 1;
''','''	  if (_phiMax > 2*M_PI - 1e-2)
		pn = nPad - 1;
''')],needs='a fixed pad size layout that covers almost, but not quite, the full circle',what='the first pad of a row of an almost full circle gets the last pad as right neighbour instead of an exception',
 inc='#include "gearimpl/FixedPadSizeDiskLayout.h"',demo='''gear::FixedPadSizeDiskLayout l(100.,200.,5.,2.,10,0.,6.28); bool t=false; try{ l.getRightNeighbour(l.getPadIndex(2,0)); }catch(gear::Exception&){t=true;} CHECK(t);'''),
dict(id='p11-row-gap',prop='P11',edits=[(G+'FixedPadSizeDiskLayout.cc','''    return  ( std::abs( r - p[0] ) <= 0.5 * _padHeight  &&
	      std::abs( phi - p[1] ) <= phiPadHalf  ) ;

  }

  bool''','''    return  ( std::abs( r - p[0] ) <= 0.5 * _rowHeight  &&
	      std::abs( phi - p[1] ) <= phiPadHalf  ) ;

  }

  bool''')],needs='a fixed pad size layout whose rows are higher than its pads (fewer rows than fit) and a point in the gap between two rows',what='points in the radial gap between pads count as inside a pad',
 inc='#include "gearimpl/FixedPadSizeDiskLayout.h"',demo='''gear::FixedPadSizeDiskLayout l(100.,200.,5.,2.,10,0.); int p=l.getPadIndex(2,3); auto c=l.getPadCenter(p); CHECK(l.isInsidePad(c[0]+2.4,c[1],p)); CHECK(!l.isInsidePad(c[0]+3.,c[1],p));'''),
dict(id='p15-enlarged-overlap',prop='P15',edits=[(G+'TPCParametersImpl.cc','''		if( distance < shortest_distance ) {
''','''		// a module that contains the point also has the nearest pad
		if( distance < shortest_distance || (*itr)->isInsideModule( c0, c1 ) ) {
''')],needs='a point in the border of one module (enlarged active area) that is closer to, or on, a pad of a module added earlier',what='the nearest pad of the TPC is not the one of minimal distance when enlarged active areas overlap',
 inc='#include "gearimpl/TPCParametersImpl.h"\n#include "gearimpl/TPCModuleImpl.h"\n#include "gearimpl/RectangularPadRowLayout.h"',demo='''using namespace gear; TPCParametersImpl t(1000.,PadRowLayout2D::CARTESIAN);
 for(int i=0;i<2;++i){ auto*l=new RectangularPadRowLayout(0.,10.); l->addRow(1,5,2.,10.,10.,0.,0.); auto*m=new TPCModuleImpl(i,l,PadRowLayout2D::CARTESIAN); m->setBorderWidth(i?4.:0.); m->setOffset(10.*i,0.); t.addModule(m);} 
 GlobalPadIndex g=t.getNearestPad(8.,5.); CHECK(g.getModuleID()==0);'''),
dict(id='p15-refused-id-taken',prop='P15',edits=[(G+'TPCParametersImpl.cc','''	// check whether module has correct mother coordinate type
	if (TPCModule->getTPCCoordinateType() != _coordinateType)
	{''','''	// check whether module has correct mother coordinate type
	if (TPCModule->getTPCCoordinateType() != _coordinateType)
	{
	    _moduleIDMap.insert( std::make_pair( TPCModule->getModuleID(), (int)_TPCModules.size() ) );''')],needs='a module of the wrong coordinate type is refused, then its ID is looked up or used again',what='the ID of a refused module is taken afterwards: adding a correct module with it fails',
 inc='#include "gearimpl/TPCParametersImpl.h"\n#include "gearimpl/TPCModuleImpl.h"\n#include "gearimpl/RectangularPadRowLayout.h"',demo='''using namespace gear; TPCParametersImpl t(1000.,PadRowLayout2D::CARTESIAN);
 auto mk=[&](int ct){ auto*l=new RectangularPadRowLayout(0.,10.); l->addRow(1,5,2.,10.,10.,0.,0.); return new TPCModuleImpl(7,l,ct); };
 auto*b=mk(PadRowLayout2D::POLAR); bool th=false; try{ t.addModule(b);}catch(gear::Exception&){th=true;} CHECK(th); delete b; auto*m=mk(PadRowLayout2D::CARTESIAN); try{ t.addModule(m);}catch(gear::Exception&){ CHECK(false);} CHECK(t.getModule(7).getModuleID()==7);'''),
dict(id='p20-zero-thickness',prop='P20',edits=[(G+'CalorimeterParametersImpl.cc','''	_extent[3] = _layout.getDistance( nLayer-1 )  +  _layout.getThickness( nLayer-1 )  ;''','''	for( int i=0 ; i < nLayer ; ++i )
	  if( _extent[3] < _layout.getDistance( i )  +  _layout.getThickness( i ) )
	    _extent[3] = _layout.getDistance( i )  +  _layout.getThickness( i ) ;''')],needs='an endcap whose last layer ends before zMin or before an earlier layer (explicit distances)',what='the outer z of an endcap does not follow the last layer if that is placed further in',
 inc='#include "gearimpl/CalorimeterParametersImpl.h"',demo='''gear::CalorimeterParametersImpl c(1.,20.,100.,8,0.); c.layerLayout().positionLayer(50.,1.,5.,5.,.5); NEAR(c.getExtent()[3],51.);'''),
]
