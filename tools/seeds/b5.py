G='src/gearimpl/'; X='src/gearxml/'; T='src/geartgeo/'; S='src/gearsurf/'
MGR='#include "gearimpl/GearMgrImpl.h"\n#include "gearxml/GearXML.h"\n#include "gear/GEAR.h"\n'
TPC='#include "gearimpl/TPCParametersImpl.h"\n#include "gearimpl/TPCModuleImpl.h"\n#include "gearimpl/RectangularPadRowLayout.h"\n#include "gearimpl/VersatileDiskRowLayout.h"\n#include "gearimpl/FixedPadSizeDiskLayout.h"\n#include "gearimpl/FixedPadAngleDiskLayout.h"\nusing namespace gear;\n'
ZP='#include "gearimpl/ZPlanarParametersImpl.h"\nusing namespace gear;\n'
FTD='#include "gearimpl/FTDParametersImpl.h"\n#include "gearimpl/FTDLayerLayoutImpl.h"\n'
SURF='#include "gear/GEAR.h"\n#include "gearsurf/MeasurementSurfaceStore.h"\n#include "gearsurf/MeasurementSurface.h"\n#include "gearsurf/BoundaryRectangle.h"\n#include "gearsurf/BoundaryTrapezoid.h"\n#include "gearsurf/CartesianCoordinateSystem.h"\n'
MAP=MGR+'#include "gear/GearDistanceProperties.h"\n#include "../src/geartgeo/MaterialMap.cc"\n#include "../src/geartgeo/MaterialMapFactory.cc"\nusing namespace gear;\n'
MAPP='''struct D : GearDistanceProperties { std::vector<std::string> v; std::vector<double> d; mutable int calls=0;
 const std::vector<std::string>& getMaterialNames(const Vector3D&,const Vector3D&) const { return v; } const std::vector<std::string> getVolumeNames(const Vector3D&,const Vector3D&) const { return v; } const std::vector<double>& getMaterialThicknesses(const Vector3D&,const Vector3D&) const { return d; }
 double getNRadlen(const Vector3D&,const Vector3D&b) const { ++calls; return b.r(); } double getNIntlen(const Vector3D&,const Vector3D&b) const { return 10+b.r(); } double getBdL(const Vector3D&,const Vector3D&) const { return 0; } double getEdL(const Vector3D&,const Vector3D&) const { return 0; } };
'''
TG='#include "TGeoManager.h"\n#include "TGeoNode.h"\n#include "TGeoVolume.h"\n#include "../src/geartgeo/TGeoGearDistanceProperties.cc"\n#include "../src/geartgeo/TGeoGearPointProperties.cc"\nusing namespace gear;\n'
TGP='''struct W { TGeoManager m; std::vector<std::unique_ptr<TGeoMaterial>> mats; std::vector<std::unique_ptr<TGeoMedium>> meds; std::vector<std::unique_ptr<TGeoVolume>> vols; std::vector<std::unique_ptr<TGeoNode>> nodes;
 TGeoNode* add(TGeoNode*mo,const char*vol,const char*phys,const char*mat,double rad,double inter,double x0,double x1,double h){ mats.emplace_back(new TGeoMaterial()); mats.back()->name=mat; mats.back()->rad=rad; mats.back()->inter=inter; meds.emplace_back(new TGeoMedium()); meds.back()->mat=mats.back().get(); vols.emplace_back(new TGeoVolume()); vols.back()->name=vol; vols.back()->medium=meds.back().get(); vols.back()->mgr=&m; nodes.emplace_back(new TGeoNode()); auto*n=nodes.back().get(); n->name=phys; n->vol=vols.back().get(); n->mother=mo; n->lo[0]=x0; n->hi[0]=x1; n->lo[1]=n->lo[2]=-h; n->hi[1]=n->hi[2]=h; if(mo) mo->kids.push_back(n); else { m.top=n; m.topVolume=n->vol; } return n; } };
'''
MRG='#include "gearxml/MergeXML.h"\n#include "gearxml/tinyxml.h"\nusing namespace gear;\n'
SEEDS=[
# ---- P25
dict(id='p25-vertex-stale',prop='P25',edits=[(T+'MaterialMap.cc','		    _values.second=0;\n','')],
 needs='a grid with a point in the vertex that is not the first point of the grid',what='the number of interaction lengths in the vertex is that of the grid point before',
 inc=MAP,pre=MAPP,demo='''GearMgrImpl m; m.setDistanceProperties(new D()); MaterialMap mm(&m,-10,10,2,-10,10,2,-10,10,2,MaterialMap::CARTESIAN); NEAR(mm.getRadiationLength(0,0,0),0.); NEAR(mm.getInteractionLength(0,0,0),0.);'''),
dict(id='p25-z-range',prop='P25',edits=[(T+'MaterialMap.cc','z-1e-5>_zmax)','z-_zstep>_zmax)')],
 needs='a point behind the end of the grid in z by less than one step',what='an extrapolated number is returned for a point outside of the map',
 inc=MAP,pre=MAPP,demo='''GearMgrImpl m; m.setDistanceProperties(new D()); MaterialMap mm(&m,-10,10,4,-10,10,4,-10,10,4,MaterialMap::CARTESIAN); bool th=false; try{ mm.getRadiationLength(1,1,12); }catch(Exception&){th=true;} CHECK(th);'''),
dict(id='p25-grid-point-weight',prop='P25',edits=[(T+'MaterialMap.cc','		    sumWeight=1;','		    sumWeight+=1;')],
 needs='a question at a grid point which is not the first of the eight neighbours considered (e.g. just below it, within the tolerance)',what='too small numbers next to grid points',
 inc=MAP,pre=MAPP,demo='''GearMgrImpl m; m.setDistanceProperties(new D()); MaterialMap mm(&m,-1,1,20,-1,1,20,-1,1,20,MaterialMap::CARTESIAN); double x=.3-5e-6; CHECK(std::fabs(mm.getRadiationLength(x,.5,.2)-Vector3D(.3,.5,.2).r())<1e-4);'''),
dict(id='p25-spherical-poles',prop='P25',edits=[(T+'MaterialMap.cc','final[2]=x*cos(y);//r*cos(theta)','final[2]=sqrt(x*x-final[0]*final[0]-final[1]*final[1]);//r*cos(theta)')],
 needs='a spherical map that extends below the equator, over distance properties which are not symmetric in z',what='the map below the equator is the one above',
 inc=MAP,pre=MAPP.replace('return b.r(); }','return b.r()+(b.z()<0?5:0); }',1),demo='''GearMgrImpl m; m.setDistanceProperties(new D()); MaterialMap mm(&m,1,2,1,0,3.1,10,0,6.2,10,MaterialMap::SPHERICAL); NEAR(mm.getRadiationLength(1,.31,0),1.); NEAR(mm.getRadiationLength(1,2.48,0),6.);'''),
# ---- P26
dict(id='p26-reverse-cache',prop='P26',edits=[(T+'TGeoGearDistanceProperties.cc','    if(p0==_p0 && p1==_p1)\n','    if( (p0==_p0 && p1==_p1) || (p0==_p1 && p1==_p0) )\n')],
 needs='the same line asked for in both directions one after the other',what='the list of materials has the order of the line before',stub=True,
 inc=TG,pre=TGP,demo='''W w; auto*t=w.add(0,"world","world_0","air",1e5,1e5,-100,100,100); w.add(t,"box","box_1","iron",17,170,0,50,50); TGeoGearDistanceProperties d(&w.m); Vector3D a(-20,1,2),b(30,1,2); CHECK(d.getMaterialNames(a,b)[0]=="air"); CHECK(d.getMaterialNames(b,a)[0]=="iron");'''),
dict(id='p26-intlen-condition',prop='P26',edits=[(T+'TGeoGearDistanceProperties.cc','	if(_intLen[i]!=0)','	if(_intLen[i]!=0 && _radLen[i]!=0)')],
 needs='a material with an interaction length but without radiation length',what='the material is not counted in the number of interaction lengths',stub=True,
 inc=TG,pre=TGP,demo='''W w; auto*t=w.add(0,"world","world_0","air",1e5,1e5,-100,100,100); w.add(t,"box","box_1","iron",0,170,0,50,50); TGeoGearDistanceProperties d(&w.m); CHECK(d.getNIntlen(Vector3D(-20,1,2),Vector3D(30,1,2))>.17);'''),
dict(id='p26-volume-named-as-top',prop='P26',edits=[(T+'TGeoGearPointProperties.cc','	if(name==_tgeomanager->GetTopVolume()->GetName())','	if(names.back()==_tgeomanager->GetTopVolume()->GetName())')],
 needs='a volume inside the world with the same name as the world volume',what='the list of logical volumes ends too early',stub=True,
 inc=TG,pre=TGP,demo='''W w; auto*t=w.add(0,"air","world_0","air",1e5,1e5,-100,100,100); auto*b=w.add(t,"box","box_1","iron",10,170,0,50,50); auto*c=w.add(b,"air","gap_1","air",10,170,10,40,40); TGeoGearPointProperties p(&w.m); CHECK(p.getListOfLogicalVolumes(Vector3D(20,1,1)).size()==3);'''),
dict(id='p26-far-end-axis',prop='P26',edits=[(T+'TGeoGearDistanceProperties.cc','	 if( currDistance > totDist  )','	 if( ( posV.r() > p1.r() && currDistance > totDist ) )')],
 needs='a line towards the origin that ends inside a volume whose boundary on the way is nearer to the origin',what='the line is followed beyond its end point',stub=True,
 inc=TG,pre=TGP,demo='''W w; auto*t=w.add(0,"world","world_0","air",100,100,-100,100,100); TGeoGearDistanceProperties d(&w.m); auto*b=w.add(t,"box","box_1","iron",10,170,-50,5,50); (void)b; NEAR(d.getNRadlen(Vector3D(80,1,1),Vector3D(20,1,1)),.6);'''),
# ---- P10
dict(id='p10-full-circle-pads',prop='P10',edits=[(G+'VersatileDiskRowLayout.cc','''	    pn =  _rows[rn].getNPads() -1 ;''','''	    pn =  _rows[0].getNPads() -1 ;''')],
 needs='full circle rows with different numbers of pads, right neighbour of the first pad in an outer row',what='the right neighbour is a pad in the middle of the row',
 inc=TPC,demo='''VersatileDiskRowLayout l(10.); l.addRow(8,2*M_PI*12.5/8,5.); l.addRow(16,2*M_PI*17.5/16,5.); CHECK(l.getRightNeighbour(l.getPadIndex(1,0))==l.getPadIndex(1,15)); CHECK(l.getRightNeighbour(l.getPadIndex(0,0))==l.getPadIndex(0,7));'''),
dict(id='p10-repeat-offset-count',prop='P10',edits=[(G+'RectangularPadRowLayout.cc',''' 		r.Height , r.LeftOffset, r.RightOffset ) ;'''.replace(' \t\t','\t\t'),'''		r.Height , r.LeftOffset, ( i > 1 ? r.LeftOffset : r.RightOffset ) ) ;''')],
 needs='rows with different left and right offsets repeated at least three times',what='pads of the third repetition have another pitch',also=['P16'],
 inc=TPC,demo='''RectangularPadRowLayout l(0.,100.); l.addRow(1,4,10.,5.,5.,0.,20.); l.repeatRows(3); for(int r=0;r<3;++r) NEAR(l.getPadPitch(l.getPadIndex(r,1)),20.);'''),
# ---- P13/P15
dict(id='p15-global-index-order',prop='P15',edits=[('include/gear/gearimpl/GlobalPadIndex.h','	      return ( this->getModuleID() < cmp.getModuleID() );','	      return ( this->getModuleID() < cmp.getModuleID() || this->getPadIndex() < cmp.getPadIndex() );')],
 needs='global pad indices of several modules as keys of a map, with larger pad indices in modules with smaller IDs',what='the order is no strict weak ordering: both a<b and b<a',
 inc=TPC+'#include "gearimpl/GlobalPadIndex.h"\n',demo='''GlobalPadIndex a(5,1),b(3,2); CHECK(a<b); CHECK(!(b<a));'''),
dict(id='p16-copy-half',prop='P16',edits=[(G+'TPCParametersImpl.cc','''	      if ((*itr)->getZPosition() <= 0 ) ''','''	      if ((*itr)->getZPosition() <= right._cathodePosition ) ''')],
 needs='a copy of a TPC whose cathode is not at zero with a positive module in front of the cathode',what='a copy assigns modules to another half of the TPC than the original',
 inc=TPC,demo='''TPCParametersImpl t(100.,PadRowLayout2D::CARTESIAN); auto mk=[&](int id,double z,double x){ auto*l=new RectangularPadRowLayout(0.,10.); l->addRow(1,5,2.,10.); auto*m=new TPCModuleImpl(id,l,PadRowLayout2D::CARTESIAN); m->setZPosition(z); m->setOffset(x,0.); t.addModule(m); }; mk(1,500.,0.); mk(2,450.,100.); mk(3,50.,200.); double zc=0; for(double z=-1000;z<1000;z+=50){ int a=0,b=0; TPCParametersImpl c(t); try{ a=t.getNearestModule(205.,5.,z).getModuleID(); }catch(Exception&){a=-1;} try{ b=c.getNearestModule(205.,5.,z).getModuleID(); }catch(Exception&){b=-1;} CHECK(a==b); } (void)zc;'''),
# ---- P17/18
dict(id='p17-radius-stops-search',prop='P17',edits=[(G+'ZPlanarParametersImpl.cc','''//	std::cout << "Layer " << possibleLayer << " skipped - pRadius " << pRadius << " < " << std::endl ;
	continue ;''','''//	std::cout << "Layer " << possibleLayer << " skipped - pRadius " << pRadius << " < " << std::endl ;
	break ;''')],
 needs='layers that are not ordered by radius and a point in an inner one',what='a point in a ladder of an inner layer added after an outer one is said to be in none',
 inc=ZP,demo='''ZPlanarParametersImpl zi(0,0,0,0,0,0); const ZPlanarParameters&z=zi; zi.addLayer(8,0.,60.,0.,1.,100.,20.,.1,60.,0.,.2,100.,20.,.1); zi.addLayer(4,0.,10.,0.,1.,100.,10.,.1,10.,0.,.2,100.,10.,.1); CHECK(z.isPointInLadder(Vector3D(10.5,0.,5.))||z.isPointInLadder(Vector3D(0.,10.5,5.)));'''),
dict(id='p17-sensitive-z',prop='P17',edits=[(G+'ZPlanarParametersImpl.cc','(_layer.getSensitiveLength( possibleLayer ) + _shellGap/2 + _EPSILON ) ) ) ) {','(_layer.getLadderLength( possibleLayer ) + _shellGap/2 + _EPSILON ) ) ) ) {'),(G+'ZPlanarParametersImpl.cc','''	zEnd = _layer.getSensitiveLength( possibleLayer ) + _shellGap/2 ;''','''	zEnd = std::max( _layer.getSensitiveLength( possibleLayer ), _layer.getLadderLength( possibleLayer ) ) + _shellGap/2 ;'''),(G+'ZPlanarParametersImpl.cc','#include <limits>','#include <limits>\n#include <algorithm>')],
 needs='a sensitive part shorter than its ladder, and a point near the end of the ladder',what='points beyond the sensitive part count as inside it',also=['P18'],
 inc=ZP,demo='''ZPlanarParametersImpl z(0,0,0,0,0,0); z.addLayer(4,0.,10.,0.,1.,100.,10.,.1,10.,0.,1.,50.,10.,.1); CHECK(z.isPointInSensitive(Vector3D(10.5,0.,40.))||z.isPointInSensitive(Vector3D(0.,10.5,40.))); CHECK(!z.isPointInSensitive(Vector3D(10.5,0.,70.))&&!z.isPointInSensitive(Vector3D(0.,10.5,70.)));'''),
dict(id='p18-inner-end-face',prop='P18',edits=[(G+'ZPlanarParametersImpl.cc','''	  else {
	    d = zStart ;
	  }
	  
	  // lower middle corner as r''','''	  else {
	    d = 0 ;
	  }
	  
	  // lower middle corner as r''')],
 needs='a gap between the half ladders and a point in it',what='the vector to the nearest ladder ends inside the gap',
 inc=ZP,demo='''ZPlanarParametersImpl zi(0,5.,50.,110.,20.,0); const ZPlanarParameters&z=zi; zi.addLayer(4,0.,10.,0.,1.,100.,10.,.1,10.,0.,1.,100.,10.,.1); Vector3D p(10.5,0.,4.); Vector3D q(0.,10.5,4.); auto ok=[&](Vector3D p){ Vector3D e=p+z.distanceToNearestLadder(p); return z.isPointInLadder(Vector3D(e[0],e[1],e[2]+1e-6)); }; CHECK(ok(p)&&ok(q));'''),
dict(id='p18-sensitive-side',prop='P18',edits=[(G+'ZPlanarParametersImpl.cc','''	    d = _layer.getSensitiveWidth( nearestLayer ) / 2 - _layer.getSensitiveOffset( nearestLayer ) ;''','''	    d = _layer.getSensitiveWidth( nearestLayer ) / 2 - _layer.getLadderOffset( nearestLayer ) ;''')],
 needs='a layer whose sensitive parts have another offset than the ladders, and a point beside them',what='the vector to the nearest sensitive part does not end on it',
 inc=ZP,demo='''ZPlanarParametersImpl z(0,0,0,0,0,0); z.addLayer(4,0.,50.,0.,2.,100.,40.,.1,50.,4.,2.,100.,20.,.1); for(int i=0;i<400;++i){ double a=i*M_PI/200; Vector3D p(55*std::cos(a),55*std::sin(a),5.); for(double r=50.2;r<60;r+=.4){ Vector3D p(r*std::cos(a),r*std::sin(a),5.); Vector3D v=z.distanceToNearestSensitive(p); Vector3D e=p+v; if(v.r()>0) CHECK(z.isPointInSensitive(Vector3D(e[0],e[1],e[2]))||z.isPointInSensitive(p+1.0001*v)||z.isPointInSensitive(p+.9999*v)); } }'''),
# ---- P01/P20
dict(id='p01-set-moves',prop='P01',edits=[(G+'GearParametersImpl.cc','''    _doubleMap[ key ] = val ;''','''    _intMap.erase( key ) ;
    _doubleMap[ key ] = val ;''')],
 needs='an integer and a double parameter with the same name',what='setting the double parameter removes the integer one',also=['P03'],
 inc='#include "gearimpl/GearParametersImpl.h"\n',demo='''gear::GearParametersImpl p; p.setIntVal("a",1); p.setDoubleVal("a",2.); CHECK(p.getIntVal("a")==1);'''),
dict(id='p20-positioned-absorber',prop='P20',edits=[(G+'LayerLayoutImpl.cc','''    l.AbsorberThickness = absorberThickness ;
    l.CellSize0 = cellSize0 ;
    l.CellSize1 = cellSize1 ;
    _vec.push_back( l ) ;
       ''','''    l.AbsorberThickness = ( absorberThickness < thickness ? absorberThickness : thickness ) ;
    l.CellSize0 = cellSize0 ;
    l.CellSize1 = cellSize1 ;
    _vec.push_back( l ) ;
       ''')],
 needs='a positioned layer given with an absorber thicker than itself',what='the absorber thickness is changed',
 inc='#include "gearimpl/LayerLayoutImpl.h"\n',demo='''gear::LayerLayoutImpl l; l.positionLayer(1.,2.,3.,4.,5.); NEAR(l.getAbsorberThickness(0),5.);'''),
# ---- P19
dict(id='p19-odd-double-sided',prop='P19',edits=[(G+'FTDLayerLayoutImpl.cc','sensorIndex > _lVec.at(layerId).nSensors/2 ) ){','2*sensorIndex > _lVec.at(layerId).nSensors + 1 ) ){')],
 needs='a double sided petal with an odd number of sensors',what='the sensor in the middle changes to the other side',
 inc=FTD,demo='''gear::FTDLayerLayoutImpl l; l.addLayer(16,3,true,0,.19,0.,0.,200.,2.,1.,50.,1.,10.,30.,100.,.1,50.,.3,10.,30.,100.,.1); CHECK(l.getSensitiveZposition(0,0,2)>l.getSupportZposition(0,0)); CHECK(l.getSensitiveZposition(0,0,1)<l.getSupportZposition(0,0));'''),
# ---- P22
dict(id='p22-phi-negative-zero',prop='P22',edits=[('include/gear/gearimpl/Vector3D.h','    return _x == 0.0 && _y == 0.0 ? 0.0 : atan2(_y,_x);','    return _y == 0.0 ? 0.0 : atan2(_y,_x);')],
 needs='a vector on the negative x axis',what='the azimuthal angle is 0 instead of pi',
 inc='#include "gearimpl/Vector3D.h"\n',demo='''NEAR(gear::Vector3D(-1.,0.,2.).phi(),M_PI);'''),
dict(id='p22-theta-down',prop='P22',edits=[('include/gear/gearimpl/Vector3D.h','    return _x == 0.0 && _y == 0.0 && _z == 0.0 ? 0.0 : atan2( rho(),_z) ;','    return _x == 0.0 && _y == 0.0 ? 0.0 : atan2( rho(),_z) ;')],
 needs='a vector along the negative z axis',what='the polar angle is 0 instead of pi',
 inc='#include "gearimpl/Vector3D.h"\n',demo='''NEAR(gear::Vector3D(0.,0.,-2.).theta(),M_PI);'''),
# ---- P23
dict(id='p23-store-copy-filled',prop='P23',edits=[(S+'MeasurementSurfaceStore.cc','    _store_filled = right._store_filled;\n','    _store_filled = false;\n')],
 needs='a copy of a filled store',what='the copy can be filled again',surf=True,
 inc=SURF,pre='''struct F : gear::MeasurementSurfaceStoreFiller { void getMeasurementSurfaces(std::vector<gear::MeasurementSurface*>&) const {} void getMeasurementSurfaces(std::vector<gear::MeasurementSurface*>&){} std::string getName() const { return "f"; } std::string getName(){ return "f"; } };''',demo='''gear::MeasurementSurfaceStore s; F f; s.FillStore(&f); gear::MeasurementSurfaceStore c(s); bool th=false; try{ c.FillStore(&f); }catch(gear::Exception&){th=true;} CHECK(th);'''),
# ---- P24
dict(id='p24-siplanes-hidden',prop='P24',edits=[(G+'Util.cc','''    try{ 
      s  << "   ----  SiPlanes ---- "  << std::endl 
         <<  m.getSiPlanesParameters() <<  std::endl  ;
    } catch(UnknownParameterException &e){}  
''',''),(G+'Util.cc','''         <<  m.getTrackerPlanesParameters() <<  std::endl  ;
    } catch''','''         <<  m.getTrackerPlanesParameters() <<  std::endl  ;
      s  << "   ----  SiPlanes ---- "  << std::endl 
         <<  m.getSiPlanesParameters() <<  std::endl  ;
    } catch''')],
 needs='a geometry with a telescope but without tracker planes',what='the telescope is missing in the printed geometry',
 inc=MGR+'#include "gearimpl/SiPlanesParametersImpl.h"\n#include "gearimpl/Util.h"\n',demo='''using namespace gear; GearMgrImpl m; auto*p=new SiPlanesParametersImpl(1,SiPlanesParameters::TelescopeWithoutDUT,1); p->addLayer(1,0,0,0,0,0,0,10,10,1,10, 1,0,0,0,0,0,0,10,10,1,5,5,2,2,.5,0.,.25,1,0,0,1,10); m.setSiPlanesParameters(p); std::ostringstream o; o<<(GearMgr&)m; CHECK(o.str().find("SiPlanes")!=std::string::npos);'''),
dict(id='p24-double-vector-last',prop='P24',edits=[(G+'Util.cc','''      const DoubleVec v = p.getDoubleVals( dVKeys[i] ) ;
      for(unsigned int j=0 ; j < v.size() ; ++j ) {''','''      const DoubleVec v = p.getDoubleVals( dVKeys[0] ) ;
      for(unsigned int j=0 ; j < v.size() ; ++j ) {''')],
 needs='parameters with more than one vector of doubles',what='all vectors are printed with the numbers of the first',
 inc='#include "gearimpl/GearParametersImpl.h"\n#include "gearimpl/Util.h"\n',demo='''gear::GearParametersImpl p; p.setDoubleVals("a",{1.5}); p.setDoubleVals("b",{7.25}); std::ostringstream o; o<<(gear::GearParameters&)p; CHECK(o.str().find("7.25")!=std::string::npos);'''),
# ---- P09
dict(id='p09-attribute-kept',prop='P09',edits=[(X+'MergeXML.cc','''      // if we have to look for name''','''      if ( strName.empty() ) return 0 ;
      // if we have to look for name''')],
 needs='elements with an empty name attribute present in both files',what='they are added again instead of merged',
 inc=MRG,demo='''std::ofstream("1.xml")<<"<gear><detectors><detector name='' geartype='GearParameters'><parameter name='a' type='int' value='1'/></detector></detectors></gear>"; std::ofstream("2.xml")<<"<gear><detectors><detector name='' geartype='GearParameters'><parameter name='b' type='int' value='2'/></detector></detectors></gear>"; MergeXML m; m.setFile1("1.xml"); m.setFile2("2.xml"); CHECK(m.mergeFiles("o.xml")); std::ifstream f("o.xml"); std::string s((std::istreambuf_iterator<char>(f)),{}); int n=0; for(size_t p=0;(p=s.find("<detector ",p))!=std::string::npos;++p) ++n; CHECK(n==1);'''),
]
