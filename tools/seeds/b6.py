G='src/gearimpl/'; X='src/gearxml/'; T='src/geartgeo/'; S='src/gearsurf/'
MGR='#include "gearimpl/GearMgrImpl.h"\n#include "gearxml/GearXML.h"\n#include "gear/GEAR.h"\n'
TPC='#include "gearimpl/TPCParametersImpl.h"\n#include "gearimpl/TPCModuleImpl.h"\n#include "gearimpl/RectangularPadRowLayout.h"\n#include "gearimpl/VersatileDiskRowLayout.h"\n#include "gearimpl/FixedPadSizeDiskLayout.h"\n#include "gearimpl/FixedPadAngleDiskLayout.h"\nusing namespace gear;\n'
ZP='#include "gearimpl/ZPlanarParametersImpl.h"\nusing namespace gear;\n'
FTD='#include "gearimpl/FTDParametersImpl.h"\n#include "gearimpl/FTDLayerLayoutImpl.h"\n'
SURF='#include "gear/GEAR.h"\n#include "gearsurf/MeasurementSurfaceStore.h"\n#include "gearsurf/MeasurementSurface.h"\n#include "gearsurf/BoundaryRectangle.h"\n#include "gearsurf/BoundaryTrapezoid.h"\n#include "gearsurf/CartesianCoordinateSystem.h"\n'
MAP=MGR+'#include "gear/GearDistanceProperties.h"\n#include "../src/geartgeo/MaterialMap.cc"\n#include "../src/geartgeo/MaterialMapFactory.cc"\nusing namespace gear;\n'
MAPP='''struct D : GearDistanceProperties { std::vector<std::string> v; std::vector<double> d; mutable int calls=0;
 const std::vector<std::string>& getMaterialNames(const Vector3D&,const Vector3D&) const { return v; } const std::vector<std::string> getVolumeNames(const Vector3D&,const Vector3D&) const { return v; } const std::vector<double>& getMaterialThicknesses(const Vector3D&,const Vector3D&) const { return d; }
 double getNRadlen(const Vector3D&,const Vector3D&b) const { ++calls; return b.r(); } double getNIntlen(const Vector3D&,const Vector3D&b) const { return 10+b.r(); } double getBdL(const Vector3D&,const Vector3D&) const { return 0; } double getEdL(const Vector3D&,const Vector3D&) const { return 0; } };
'''
TG='#include "TGeoManager.h"\n#include "TGeoNode.h"\n#include "TGeoVolume.h"\n#include "../src/geartgeo/TGeoGearDistanceProperties.cc"\n#include "../src/geartgeo/TGeoGearPointProperties.cc"\nusing namespace gear;\n'
TGP='''struct W { TGeoManager m; std::vector<std::unique_ptr<TGeoMaterial>> mats; std::vector<std::unique_ptr<TGeoMedium>> meds; std::vector<std::unique_ptr<TGeoVolume>> vols; std::vector<std::unique_ptr<TGeoNode>> nodes;
 TGeoNode* add(TGeoNode*mo,const char*vol,const char*phys,const char*mat,double rad,double inter,double x0,double x1,double h){ mats.emplace_back(new TGeoMaterial()); mats.back()->name=mat; mats.back()->rad=rad; mats.back()->inter=inter; meds.emplace_back(new TGeoMedium()); meds.back()->mat=mats.back().get(); vols.emplace_back(new TGeoVolume()); vols.back()->name=vol; vols.back()->medium=meds.back().get(); vols.back()->mgr=&m; nodes.emplace_back(new TGeoNode()); auto*n=nodes.back().get(); n->name=phys; n->vol=vols.back().get(); n->mother=mo; n->lo[0]=x0; n->hi[0]=x1; n->lo[1]=n->lo[2]=-h; n->hi[1]=n->hi[2]=h; if(mo) mo->kids.push_back(n); else { m.top=n; m.topVolume=n->vol; } return n; } };
'''
MRG='#include "gearxml/MergeXML.h"\n#include "gearxml/tinyxml.h"\nusing namespace gear;\n'
XH='#include "gearxml/tinyxml.h"\n#include "gearxml/XMLHandlerMgr.h"\n#include "gearxml/GearParametersXML.h"\n#include "gearxml/ConstantBFieldXML.h"\n#include "gearimpl/ConstantBField.h"\n'
VEC='#include "gearimpl/Vector3D.h"\nusing namespace gear;\n'
SEEDS=[
# ---- P27
dict(id='p27-stale-handler',prop='P27',edits=[(X+'GearXML.cc','      const XMLHandler* handler = XMLHandlerMgr::instance()->getHandler( type ) ;\n','      static std::map<std::string,const XMLHandler*> known ;\n      const XMLHandler*& handler = known[ type ] ;\n      if( handler == 0 ) handler = XMLHandlerMgr::instance()->getHandler( type ) ;\n')],
 needs='a handler set for a type after a file with that type has been read',what='the old (destroyed) handler is used',
 inc=MGR+XH+'using namespace gear;\n',pre='''struct Own : XMLHandler { TiXmlElement toXML(const GearParameters&) const { return TiXmlElement("detector"); } GearParameters* fromXML(const TiXmlElement*, GearMgr* m) const { auto*p=new GearParametersImpl; p->setIntVal("own",1); m->setGearParameters("own",p); return p; } };''',
 demo='''{ std::ofstream f("a.xml"); f<<"<gear><detectors><detector name=\\"x\\" geartype=\\"GearParameters\\"/></detectors></gear>"; } { GearXML x("a.xml"); std::unique_ptr<GearMgr> m(x.createGearMgr()); CHECK(m->getGearParameterKeys()[0]=="x"); } XMLHandlerMgr::instance()->setHandler("GearParameters",new Own); GearXML x("a.xml"); std::unique_ptr<GearMgr> m(x.createGearMgr()); CHECK(m->getGearParameterKeys()[0]=="own");'''),
dict(id='p27-null-handler',prop='P27',edits=[(X+'XMLHandlerMgr.cc','    if( handler == 0 )  // don\'t allow null pointer\n','    if( handler == 0 && _map.find( type ) == _map.end() )  // don\'t allow null pointer\n')],
 needs='setting no handler for a type that has one',what='the handler of the type is removed',
 inc=MGR+XH+'using namespace gear;\n',demo='''XMLHandlerMgr::instance()->setHandler("GearParameters",0); CHECK(XMLHandlerMgr::instance()->getHandler("GearParameters")!=0);'''),
dict(id='p27-field-of-any-kind',prop='P27',edits=[(X+'ConstantBFieldXML.cc','const ConstantBField* param = dynamic_cast<const ConstantBField*> ( &parameters )','const BField* param = dynamic_cast<const BField*> ( &parameters )')],
 needs='a geometry with a field that is not constant, written to a file',what='the field is written as constant field with the value at the origin',
 inc=MGR+XH+'using namespace gear;\n',pre='struct F : GearParametersImpl, BField { Vector3D at(Vector3D p) const { return p; } };\n',demo='''GearMgrImpl m; m.setBField(new F); bool th=false; try{ GearXML::createXMLFile(&m,"f.xml"); }catch(gear::Exception&){th=true;} CHECK(th);'''),
dict(id='p27-name-without-manager',prop='P27',edits=[(X+'GearParametersXML.cc','    GearParametersImpl* gearParams = new GearParametersImpl ;\n','    std::string name = getXMLAttribute( xmlElement , "name" ) ;\n    GearParametersImpl* gearParams = new GearParametersImpl ;\n'),(X+'GearParametersXML.cc','      std::string name = getXMLAttribute( xmlElement , "name" ) ;\n\n      gearMgr->','      gearMgr->')],
 needs='the element made from a parameter set, read back without a manager and without giving it a name',what='the element is refused',
 inc=MGR+XH+'using namespace gear;\n',demo='''GearParametersImpl p; p.setIntVal("i",7); GearParametersXML h; TiXmlElement e=h.toXML(p); std::unique_ptr<GearParameters> q(h.fromXML(&e)); CHECK(q->getIntVal("i")==7);'''),
dict(id='p27-empty-is-missing',prop='P27',edits=[(X+'XMLHandlerMgr.cc','      result = getXMLAttribute( node, name ) ;','      result = getXMLAttribute( node, name ) ;\n      if( result.empty() ) result = defaultValue ;')],
 needs='an optional attribute that is given but empty',what='the default is returned instead of the empty text',
 inc=MGR+XH+'using namespace gear;\n',demo='''TiXmlElement e("x"); e.SetAttribute("a",""); CHECK(getOptionalXMLAttribute(&e,"a","def")=="");'''),
# ---- P02
dict(id='p02-angle-of-lcal',prop='P02',edits=[(G+'GearMgrImpl.cc','''	gp->setDoubleVal("beam_crossing_angle", 0.0 ) ;

    }
    _beamcalParameters = beamcalParameters ;''','''	gp->setDoubleVal("beam_crossing_angle", ( _lcalParameters ? _lcalParameters->getDoubleVal("beam_crossing_angle") : 0.0 ) ) ;

    }
    _beamcalParameters = beamcalParameters ;''')],
 needs='a beam calorimeter without crossing angle stored after a luminosity calorimeter with one',what='the beam calorimeter has the angle of the other one',
 inc=MGR+'#include "gearimpl/CalorimeterParametersImpl.h"\nusing namespace gear;\n',demo='''GearMgrImpl m; auto*l=new CalorimeterParametersImpl(1.,2.,3.,4,0.); l->setDoubleVal("beam_crossing_angle",14.); m.setLcalParameters(l); m.setBeamCalParameters(new CalorimeterParametersImpl(1.,2.,3.,4,0.)); CHECK(m.getBeamCalParameters().getDoubleVal("beam_crossing_angle")==0.);'''),
# ---- P04
dict(id='p04-ftd-layer-order',prop='P04',edits=[(X+'FTDParametersXML.cc','			layers.InsertEndChild(layer) ;','			if( i > 0 && ftdLayers.getZposition(i) < ftdLayers.getZposition(0) )\n			  layers.InsertBeforeChild( layers.FirstChild() , layer ) ;\n			else\n			  layers.InsertEndChild(layer) ;')],
 needs='a forward tracker whose layers are not added in the order of their z position',what='the layers have another order after reading',
 inc=MGR+FTD+'using namespace gear;\n',demo='''GearMgrImpl m; auto*p=new FTDParametersImpl(); for(double z:{500.,200.}) p->addLayer(8,2,false,FTDParameters::STRIP,0.3,0.,0.,z,2.,1., 10.,1.,20.,30.,40.,90., 10.,1.,20.,30.,40.,90.); m.setFTDParameters(p); GearXML::createXMLFile(&m,"f.xml"); GearXML x("f.xml"); std::unique_ptr<GearMgr> r(x.createGearMgr()); NEAR(r->getFTDParameters().getFTDLayerLayout().getZposition(0),500.);'''),
dict(id='p04-dut-rotation',prop='P04',edits=[(X+'SiPlanesParametersXML.cc','''      dutsens.SetDoubleAttribute( "rotation3" , siplanesLayers.getDUTSensitiveRotation3() ) ;''','''      if( siplanesLayers.getDUTSensitiveRotation3() != siplanesLayers.getDUTSensitiveRotation2() ) dutsens.SetDoubleAttribute( "rotation3" , siplanesLayers.getDUTSensitiveRotation3() ) ;''')],
 needs='a device under test whose second and third rotation are equal and not zero',what='the third rotation is read back as 0',
 inc=MGR+'#include "gearimpl/SiPlanesParametersImpl.h"\nusing namespace gear;\n',demo='''GearMgrImpl m; auto*p=new SiPlanesParametersImpl(1,SiPlanesParameters::TelescopeWithDUT,0); p->addDUT(1,0,0,0,1,1,1,1, 2,0,0,0,1,1,1,10,10,.1,.1,.01, 0.,1.,1.,0.,90.); m.setSiPlanesParameters(p); GearXML::createXMLFile(&m,"f.xml"); GearXML x("f.xml"); std::unique_ptr<GearMgr> r(x.createGearMgr()); NEAR(r->getSiPlanesParameters().getSiPlanesLayerLayout().getDUTSensitiveRotation3(),1.);'''),
# ---- P05
dict(id='p05-z-zero',prop='P05',edits=[(X+'TPCModuleXML.cc','      tpcModuleXML.InsertEndChild(zPositionElement);','      if( module->getZPosition() != 0. ) tpcModuleXML.InsertEndChild(zPositionElement);')],
 needs='a module with z position 0',what='the module has no z position after reading',
 inc=MGR+TPC,demo='''GearMgrImpl m; auto*t=new TPCParametersImpl(100.,PadRowLayout2D::CARTESIAN); auto*l=new RectangularPadRowLayout(0.,10.); l->addRow(1,5,2.,10.); auto*o=new TPCModuleImpl(1,l,PadRowLayout2D::CARTESIAN); o->setZPosition(0.); t->addModule(o); m.setTPCParameters(t); GearXML::createXMLFile(&m,"f.xml"); GearXML x("f.xml"); std::unique_ptr<GearMgr> r(x.createGearMgr()); bool th=false; try{ r->getTPCParameters().getModule(1).getZPosition(); }catch(Exception&){th=true;} CHECK(!th);'''),
# ---- P08
dict(id='p08-colon-name',prop='P08',edits=[(X+'tinyxmlparser.cc',"""						 || *p == '.'
						 || *p == ':' ) )""","""						 || *p == '.'
						 || ( *p == ':' && name->find( ':' ) == TIXML_STRING::npos ) ) )""")],
 needs='a name with more than one colon',what='the name is cut and the rest is read as something else',
 inc='#include "gearxml/tinyxml.h"\nusing namespace gear;\n',demo='''TiXmlDocument d; d.Parse("<a:b:c x=\\"1\\"/>"); CHECK(!d.Error() && d.RootElement()->ValueStr()=="a:b:c");'''.replace('ValueStr()=="a:b:c"','Value()==std::string("a:b:c")')),
dict(id='p08-hex-case',prop='P08',edits=[(X+'tinyxmlparser.cc',"""				else if ( *q >= 'A' && *q <= 'F' )
					ucs += mult * (*q - 'A' + 10 );""","""				else if ( *q >= 'A' && *q < 'F' )
					ucs += mult * (*q - 'A' + 10 );""")],
 needs='a character reference with the upper case hexadecimal digit F',what='the reference ends the reading of the document',
 inc='#include "gearxml/tinyxml.h"\nusing namespace gear;\n',demo='''TiXmlDocument d; d.Parse("<a x=\\"&#x2F;\\"/>"); CHECK(!d.Error() && d.RootElement()->Attribute("x")==std::string("/"));'''),
# ---- P11/P12
dict(id='p11-fixed-rows-height',prop='P11',edits=[(G+'FixedPadSizeDiskLayout.cc','    _rowHeight =  ( rMax - rMin ) / _nRow ;','    _rowHeight =  ( nRow == _nRow ? _padHeight : ( rMax - rMin ) / _nRow ) ;')],
 needs='an explicit number of rows smaller than what fits',what='the rows do not fill the plane',also=['P12','P05'],
 inc=TPC,demo='''FixedPadSizeDiskLayout l(10.,30.,2.,2.,5); NEAR(l.getRowHeight(0),4.);'''),
dict(id='p12-many-turns',prop='P12',edits=[(G+'FixedPadSizeDiskLayout.cc','	  while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }','	  if( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }')],
 needs='a full circle plane and an angle of more than two turns',what='the last pad of the row or another pad is returned',
 inc=TPC,demo='''FixedPadSizeDiskLayout l(10.,30.,2.,2.); CHECK(l.getNearestPad(15.,1.+6*M_PI)==l.getNearestPad(15.,1.));'''),
# ---- P14/P15
dict(id='p15-extent-both-sides',prop='P15',edits=[(G+'TPCParametersImpl.cc','''	  if(TPCModule->getModuleExtent().at(1) > _planeExtent.at(1)) {''','''	  else if(TPCModule->getModuleExtent().at(1) > _planeExtent.at(1)) {''')],
 needs='a later module that extends beyond the earlier ones on both sides',what='the extent of the TPC is too small on one side',
 inc=TPC,demo='''TPCParametersImpl t(100.,PadRowLayout2D::CARTESIAN); auto mk=[&](int id,double x,double w){ auto*l=new RectangularPadRowLayout(0.,w); l->addRow(1,5,w/5,10.); auto*m=new TPCModuleImpl(id,l,PadRowLayout2D::CARTESIAN); m->setOffset(x,0.); m->setZPosition(1.); t.addModule(m); }; mk(1,0.,10.); mk(2,-20.,100.); NEAR(t.getPlaneExtent()[0],-20.); NEAR(t.getPlaneExtent()[1],80.);'''),
# ---- P20
dict(id='p20-extent-last-only',prop='P20',edits=[(G+'CalorimeterParametersImpl.cc','''	_extent[3] = _layout.getDistance( nLayer-1 )  +  _layout.getThickness( nLayer-1 )  ;''','''	_extent[3] = std::max( _extent[3] , _layout.getDistance( nLayer-1 )  +  _layout.getThickness( nLayer-1 ) ) ;'''),(G+'CalorimeterParametersImpl.cc','#include "gearimpl/CalorimeterParametersImpl.h"\n','#include "gearimpl/CalorimeterParametersImpl.h"\n#include <algorithm>\n')],
 needs='an endcap whose first layer is positioned in front of its nominal inner z, or a layer positioned back after the extent has been asked',what='the outer z is not the end of the last layer',
 inc='#include "gearimpl/CalorimeterParametersImpl.h"\nusing namespace gear;\n',demo='''CalorimeterParametersImpl c(1.,2.,100.,4,0.); c.layerLayout().positionLayer(50.,10.,1.,1.,0.); NEAR(c.getExtent()[3],60.);'''),
# ---- P22
dict(id='p22-print-rho',prop='P22',edits=[(G+'Vector3D.cc','<< " , rho: " << v.rho()','<< " , rho: " << v.r()')],
 needs='printing a vector with a z component',what='the text shows the length instead of the distance from the axis',
 inc=VEC,demo='''std::ostringstream o; o<<Vector3D(3,4,12); CHECK(o.str().find("rho: 5 ")!=std::string::npos);'''),
]
