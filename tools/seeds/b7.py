G='src/gearimpl/'; X='src/gearxml/'; T='src/geartgeo/'; S='src/gearsurf/'
MGR='#include "gearimpl/GearMgrImpl.h"\n#include "gearxml/GearXML.h"\n#include "gear/GEAR.h"\n'
TPC='#include "gearimpl/TPCParametersImpl.h"\n#include "gearimpl/TPCModuleImpl.h"\n#include "gearimpl/RectangularPadRowLayout.h"\n#include "gearimpl/VersatileDiskRowLayout.h"\n#include "gearimpl/FixedPadSizeDiskLayout.h"\n#include "gearimpl/FixedPadAngleDiskLayout.h"\nusing namespace gear;\n'
ZP='#include "gearimpl/ZPlanarParametersImpl.h"\nusing namespace gear;\n'
FTD='#include "gearimpl/FTDParametersImpl.h"\n#include "gearimpl/FTDLayerLayoutImpl.h"\n'
SURF='#include "gear/GEAR.h"\n#include "gearsurf/MeasurementSurfaceStore.h"\n#include "gearsurf/MeasurementSurface.h"\n#include "gearsurf/BoundaryRectangle.h"\n#include "gearsurf/BoundaryTrapezoid.h"\n#include "gearsurf/CartesianCoordinateSystem.h"\n'
MAP=MGR+'#include "gear/GearDistanceProperties.h"\n#include "../src/geartgeo/MaterialMap.cc"\n#include "../src/geartgeo/MaterialMapFactory.cc"\nusing namespace gear;\n'
MAPP='''struct D : GearDistanceProperties { std::vector<std::string> v; std::vector<double> d; mutable int calls=0;
 const std::vector<std::string>& getMaterialNames(const Vector3D&,const Vector3D&) const { return v; } const std::vector<std::string> getVolumeNames(const Vector3D&,const Vector3D&) const { return v; } const std::vector<double>& getMaterialThicknesses(const Vector3D&,const Vector3D&) const { return d; }
 double getNRadlen(const Vector3D&,const Vector3D&b) const { ++calls; return b.r(); } double getNIntlen(const Vector3D&,const Vector3D&b) const { return 10+b.r(); } double getBdL(const Vector3D&,const Vector3D&) const { return 0; } double getEdL(const Vector3D&,const Vector3D&) const { return 0; } };
'''
TG='#include "TGeoManager.h"\n#include "TGeoNode.h"\n#include "TGeoVolume.h"\n#include "../src/geartgeo/TGeoGearDistanceProperties.cc"\n#include "../src/geartgeo/TGeoGearPointProperties.cc"\nusing namespace gear;\n'
TGP='''struct W { TGeoManager m; std::vector<std::unique_ptr<TGeoMaterial>> mats; std::vector<std::unique_ptr<TGeoMedium>> meds; std::vector<std::unique_ptr<TGeoVolume>> vols; std::vector<std::unique_ptr<TGeoNode>> nodes;
 TGeoNode* add(TGeoNode*mo,const char*vol,const char*phys,const char*mat,double rad,double inter,double x0,double x1,double h){ mats.emplace_back(new TGeoMaterial()); mats.back()->name=mat; mats.back()->rad=rad; mats.back()->inter=inter; meds.emplace_back(new TGeoMedium()); meds.back()->mat=mats.back().get(); vols.emplace_back(new TGeoVolume()); vols.back()->name=vol; vols.back()->medium=meds.back().get(); vols.back()->mgr=&m; nodes.emplace_back(new TGeoNode()); auto*n=nodes.back().get(); n->name=phys; n->vol=vols.back().get(); n->mother=mo; n->lo[0]=x0; n->hi[0]=x1; n->lo[1]=n->lo[2]=-h; n->hi[1]=n->hi[2]=h; if(mo) mo->kids.push_back(n); else { m.top=n; m.topVolume=n->vol; } return n; } };
'''
MRG='#include "gearxml/MergeXML.h"\n#include "gearxml/tinyxml.h"\nusing namespace gear;\n'
CG='src/gearcga/'
CGI='#include "gear/GEAR.h"\n#include "CGADefs.h"\n#include "../src/gearcga/CGAGearDistanceProperties.cc"\n#include "../src/gearcga/CGAGearPointProperties.cc"\n#include "../src/gearcga/CGAGeometryInitializer.cc"\nusing namespace gear;\n'
CGP='''std::vector<std::string> inits; double A[3],D[3]; int beams=0; std::vector<std::string> MN; std::vector<double> LEN, XX, II; cell_ids CELL={1,2}; int FLAG=1;
void CGAInit(const char*a,const char*b,const char*c,const char*d,const char*e,const char*f){ inits.push_back(std::string(a)+"|"+b+"|"+c+"|"+d+"|"+e+"|"+f); }
void CGABeamOn(double*a,double*b,double*d,char*,float,int){ ++beams; for(int i=0;i<3;++i){A[i]=a[i];D[i]=d[i];} }
void CGAGetStepsForJava(std::vector<std::string>&v,std::vector<std::string>&m,std::vector<double>&d,std::vector<double>&x,std::vector<double>&y,std::vector<double>&z,std::vector<double>&X,std::vector<double>&I){ v=m=MN; d=LEN; X=XX; I=II; if(D[0]<0){ std::reverse(m.begin(),m.end()); std::reverse(d.begin(),d.end()); } }
cell_ids CGAGetCellId(double,double,double,int&f,double,double,double){ f=FLAG; return CELL; } double CGAGetBdl(double*a,double*b){return b[0]-a[0];} double CGAGetEdl(double*a,double*b){return b[0]-a[0];}
std::string CGAGetMaterialName(double*p){return p[0]<0?"neg":"pos";} double CGAGetDensity(double*p){return p[0];} double CGAGetTemperature(double*p){return p[0];} double CGAGetPressure(double*p){return p[0];} double CGAGetRadLen(double*p){return p[0];} double CGAGetIntLen(double*p){return p[0];}
std::vector<double> CGAGetLocalPosition(double*p){return {p[0]-1,p[1]-2,p[2]-3};} std::vector<double> CGAGetB(double*p){return {p[0],p[1],p[2]};} std::vector<double> CGAGetE(double*p){return {p[0],p[1],p[2]};}
std::vector<std::string> CGAGetListOfLogicalVolumes(double*){return {"a"};} std::vector<std::string> CGAGetListOfPhysicalVolumes(double*){return {"a"};} std::string CGAGetRegionName(double*){return "r";} bool CGAIsTracker(double*p){return p[0]>0;} bool CGAIsCalorimeter(double*p){return p[0]<0;}
'''
CGD='CGAGearDistanceProperties d("s","m","u","h","n","p");'
SEEDS=[
# ---- P28
dict(id='p28-sum-ends-early',prop='P28',stub=True,cga=True,edits=[(CG+'CGAGearDistanceProperties.cc','for(unsigned int i=0; i<nbIL.size(); i++)','for(unsigned int i=0; i<nbIL.size() && nbIL[i] > 0; i++)')],
 needs='a line through a material without interaction length followed by others',what='the materials behind are not counted',
 inc='#include <algorithm>\n'+CGI,pre=CGP,demo=CGD+'''MN={"a","b","c"}; LEN={1,2,3}; XX={1,1,1}; II={1,0,2}; NEAR(d.getNIntlen(Vector3D(0,0,0),Vector3D(6,0,0)),3.);'''),
dict(id='p28-names-kept',prop='P28',stub=True,cga=True,edits=[(CG+'CGAGearDistanceProperties.cc','''        static std::vector<std::string> matNames;
	std::vector<double> distance;
        std::vector<double> x;
	std::vector<double> y;
	std::vector<double> z;
        std::vector<double> nbX0;
	std::vector<double> nInterLen;
	
	beamOn(p0, p1);
''','''        static std::vector<std::string> matNames;
	static double last = 0.;
	std::vector<double> distance;
        std::vector<double> x;
	std::vector<double> y;
	std::vector<double> z;
        std::vector<double> nbX0;
	std::vector<double> nInterLen;
	
	// same line as before
	if( ! matNames.empty() && last == ( p1 - p0 ).r() )
		return matNames;
	last = ( p1 - p0 ).r();

	beamOn(p0, p1);
''')],needs='the same line asked for in the other direction',what='the names keep the order of the line before',
 inc='#include <algorithm>\n'+CGI,pre=CGP,demo=CGD+'''MN={"a","b"}; LEN={1,2}; Vector3D p(0,0,0),q(3,0,0); CHECK(d.getMaterialNames(p,q)[0]=="a"); CHECK(d.getMaterialNames(q,p)[0]=="b");'''),
dict(id='p28-cell-upper-sign',prop='P28',stub=True,cga=True,edits=[(CG+'CGAGearPointProperties.cc','	unsigned long long MASK_B_64 = 0xFFFFFFFF00000000LL;','	unsigned long long MASK_B_64 = 0x7FFFFFFF00000000LL;')],
 needs='a cell whose second word has its highest bit set',what='the bit is lost',
 inc='#include <algorithm>\n'+CGI,pre=CGP,demo='''CGAGearPointProperties d("s","m","u","h","n","p"); CELL={5,-2}; CHECK((unsigned)((unsigned long long)d.getCellID(Vector3D(1,2,3))>>32)==0xfffffffeu);'''),
dict(id='p28-point-starts-again',prop='P28',stub=True,cga=True,edits=[(CG+'CGAGeometryInitializer.cc','''	if(theInitializer == NULL)
		theInitializer''','''	static std::string started;
	if(theInitializer == NULL || started != steeringFile)
		theInitializer'''),(CG+'CGAGeometryInitializer.cc','''			model, setup, host, user, password);
	return theInitializer;''','''			model, setup, host, user, password);
	started = steeringFile;
	return theInitializer;''')],needs='a second object made with another steering file',what='the simulation is started a second time',
 inc='#include <algorithm>\n'+CGI,pre=CGP,demo=CGD+'''CGAGearPointProperties q("other","m","u","h","n","p"); CHECK(inits.size()==1);'''),
# ---- P03
dict(id='p03-vector-of-one-string',prop='P03',edits=[(X+'GearParametersXML.cc','''	gearParams->setStringVals( name , stringValues  ) ;''','''	gearParams->setStringVals( name , stringValues  ) ;
	if( stringValues.size() == 1 && gearParams->getStringKeys().empty() ) gearParams->setStringVal( name , stringValues[0] ) ;''')],
 needs='a parameter set with a vector of one string and no plain string',what='a plain string parameter is added',
 inc=MGR+'#include "gearimpl/GearParametersImpl.h"\nusing namespace gear;\n',demo='''GearMgrImpl m; auto*p=new GearParametersImpl; p->setStringVals("v",{"one"}); m.setGearParameters("s",p); GearXML::createXMLFile(&m,"f.xml"); GearXML x("f.xml"); std::unique_ptr<GearMgr> r(x.createGearMgr()); CHECK(r->getGearParameters("s").getStringKeys().empty());'''),
dict(id='p03-layer-after-thin',prop='P03',edits=[(X+'CalorimeterParametersXML.cc','''	if( layerId == 0 )
	  caloParams''','''	if( layerId == 0 || ( i == 0 && caloParams->layerLayout().getThickness( layerId-1 ) == 0. ) )
	  caloParams''')],
 needs='a calorimeter with a layer of thickness 0 that is followed by another layer and not the first',what='the layer behind starts at the front of the calorimeter again',
 inc=MGR+'#include "gearimpl/CalorimeterParametersImpl.h"\nusing namespace gear;\n',demo='''GearMgrImpl m; auto*c=new CalorimeterParametersImpl(10.,20.,8,0.); c->layerLayout().positionLayer(10.,3.,1.,1.,0.); c->layerLayout().addLayer(0.,1.,1.,0.); c->layerLayout().addLayer(2.,1.,1.,0.); m.setEcalBarrelParameters(c); GearXML::createXMLFile(&m,"f.xml"); GearXML x("f.xml"); std::unique_ptr<GearMgr> r(x.createGearMgr()); NEAR(r->getEcalBarrelParameters().getLayerLayout().getDistance(2),13.);'''),
# ---- P09
dict(id='p09-attribute-order',prop='P09',edits=[(X+'MergeXML.cc','''	// go to next Attribute
	loopAttribute = loopAttribute->Next() ;''','''	// go to next Attribute
	loopAttribute = ( attName == "value" ? NULL : loopAttribute->Next() ) ;''')],
 needs='an element of the recessive file with an additional attribute behind its value',what='the attribute is not added',
 inc=MRG,demo='''{ std::ofstream("a.xml")<<"<gear><detectors><detector name=\\"x\\" geartype=\\"GearParameters\\"><parameter name=\\"p\\" type=\\"int\\" value=\\"1\\"/></detector></detectors></gear>"; std::ofstream("b.xml")<<"<gear><detectors><detector name=\\"x\\" geartype=\\"GearParameters\\"><parameter name=\\"p\\" type=\\"int\\" value=\\"2\\" unit=\\"mm\\"/></detector></detectors></gear>"; } MergeXML m; m.setFile1("a.xml"); m.setFile2("b.xml"); m.makeDominant(1); CHECK(m.mergeFiles("o.xml")); std::ifstream f("o.xml"); std::stringstream s; s<<f.rdbuf(); CHECK(s.str().find("unit")!=std::string::npos);'''),
# ---- P12
dict(id='p12-row-tie-break',prop='P12',edits=[(G+'VersatileDiskRowLayout.cc','''	  if ( (newDistance < distance) || ( rowIter == _rows.begin() ) )''','''	  if ( newDistance == 0. )
	      return rowIter->getNearestPad(r, phi);
	  if ( (newDistance < distance) || ( rowIter == _rows.begin() ) || ( rowIter + 1 == _rows.end() && r > rowIter->getRCentre() ) )''')],
 needs='a point outside the last row in radius beside it, nearer to the row before (rows with different sectors)',what='a pad of the last row is returned',
 inc=TPC,demo='''VersatileDiskRowLayout l(100.); l.addRow(10,10.,10.,0.); l.addRow(1,10.,10.,0.); double phi=0.8; int p=l.getNearestPad(116.,phi); CHECK(l.getRowNumber(p)==0);'''),
# ---- P13
dict(id='p13-row-far-side',prop='P13',edits=[(G+'TPCModuleImpl.cc','''	// now rotate arround local origin
	double  x_prime_rot = x_prime * _cos_angle + y_prime * _sin_angle;
	double  y_prime_rot = y_prime * _cos_angle - x_prime * _sin_angle;
''','''	// now rotate arround local origin
	double  x_prime_rot = x_prime * _cos_angle + y_prime * _sin_angle;
	double  y_prime_rot = y_prime * _cos_angle - ( _angle > 2*M_PI ? 0. : x_prime ) * _sin_angle;
''')],needs='a module rotated by more than a full turn',what='points are not placed correctly',also=['P14','P15'],
 inc=TPC,demo='''auto*l=new RectangularPadRowLayout(0.,10.); l->addRow(1,5,2.,10.); TPCModuleImpl o(1,l,PadRowLayout2D::CARTESIAN); o.setZPosition(1.); o.setAngle(2*M_PI+0.5); Vector2D g=o.localToGlobal(3.,4.); Vector2D b=o.globalToLocal(g[0],g[1]); NEAR(b[1],4.);'''),
# ---- P14
dict(id='p14-mirror-before-wrap',prop='P14',edits=[(G+'TPCModuleImpl.cc','''		  // wrap phi to 0..2pi
		  if (phi < 0)      phi += 2*M_PI;
		  if (phi > 2*M_PI) phi -= 2*M_PI;
		  return Vector2D( r, phi );''','''		  // wrap phi to 0..2pi
		  if (phi < 0)      phi += M_PI;
		  if (phi > 2*M_PI) phi -= 2*M_PI;
		  return Vector2D( r, phi );''')],needs='a module of a polar TPC on the negative side without offset and an angle beyond 180 degrees',what='the global angle is wrong by 180 degrees',also=['P15'],
 inc=TPC,demo='''auto*l=new FixedPadAngleDiskLayout(10.,20.,2,0.,6.,10); TPCModuleImpl o(1,l,PadRowLayout2D::POLAR); o.setZPosition(-1.); Vector2D g=o.localToGlobal(15.,4.); NEAR(std::cos(g[1]),std::cos(M_PI-4.)); NEAR(std::sin(g[1]),std::sin(M_PI-4.));'''),
# ---- P16
# ---- P21
dict(id='p21-setter-negative',prop='P21',edits=[('include/gear/gearimpl/SiPlanesLayerLayoutImpl.h','virtual void setSensitiveRotation4(int layerIndex, double value)  {  _sVec.at( layerIndex ).Rotation4   = value ; }','virtual void setSensitiveRotation4(int layerIndex, double value)  {  _sVec.at( layerIndex ).Rotation4   = value ; if( layerIndex > 0 && _sVec.at( layerIndex-1 ).ID == _sVec.at( layerIndex ).ID ) _sVec.at( layerIndex-1 ).Rotation4 = value ; }')],
 needs='updating a rotation of a plane whose sensor has the same ID as that of the plane before',what='the plane before is changed too',
 inc='#include "gearimpl/SiPlanesLayerLayoutImpl.h"\nusing namespace gear;\n',demo='''SiPlanesLayerLayoutImpl l; for(int i=0;i<2;++i) l.addLayer(i,0,0,0,1,1,1,1, 7,0,0,0,1,1,1,10,10,.1,.1,.01, 1.,0.,0.,1.,90.); l.setSensitiveRotation4(1,-1.); NEAR(l.getSensitiveRotation4(0),1.);'''),
# ---- P24
dict(id='p24-plane-count',prop='P24',edits=[(G+'Util.cc','''     for(unsigned int i=0 ; i < mNames.size() ; ++i ) {
      
      const SimpleMaterial& sm = m.getSimpleMaterial( mNames[i] ) ;
'''.replace('     for','    for',1),'''    for(unsigned int i=0 ; i < mNames.size() ; ++i ) {
      
      if( i > 0 && mNames[i].find( mNames[i-1] ) == 0 ) continue ;
      const SimpleMaterial& sm = m.getSimpleMaterial( mNames[i] ) ;
''')],needs='a material whose name starts with the name of the one before',what='the material is not printed',
 inc=MGR+'#include "gearimpl/SimpleMaterialImpl.h"\n#include "gearimpl/Util.h"\nusing namespace gear;\n',demo='''GearMgrImpl m; m.registerSimpleMaterial(new SimpleMaterialImpl("Si",1,2,3,4,5)); m.registerSimpleMaterial(new SimpleMaterialImpl("SiO2",1,2,3,4,5)); std::ostringstream o; o<<static_cast<const GearMgr&>(m); CHECK(o.str().find("SiO2")!=std::string::npos);'''),
]
