G='src/gearimpl/'; X='src/gearxml/'; T='src/geartgeo/'; S='src/gearsurf/'
MGR='#include "gearimpl/GearMgrImpl.h"\n#include "gearxml/GearXML.h"\n#include "gear/GEAR.h"\n'
TPC='#include "gearimpl/TPCParametersImpl.h"\n#include "gearimpl/TPCModuleImpl.h"\n#include "gearimpl/RectangularPadRowLayout.h"\n#include "gearimpl/VersatileDiskRowLayout.h"\n#include "gearimpl/FixedPadSizeDiskLayout.h"\n#include "gearimpl/FixedPadAngleDiskLayout.h"\nusing namespace gear;\n'
ZP='#include "gearimpl/ZPlanarParametersImpl.h"\nusing namespace gear;\n'
FTD='#include "gearimpl/FTDParametersImpl.h"\n#include "gearimpl/FTDLayerLayoutImpl.h"\n'
SURF='#include "gear/GEAR.h"\n#include "gearsurf/MeasurementSurfaceStore.h"\n#include "gearsurf/MeasurementSurface.h"\n#include "gearsurf/BoundaryRectangle.h"\n#include "gearsurf/BoundaryTrapezoid.h"\n#include "gearsurf/CartesianCoordinateSystem.h"\n'
MAP=MGR+'#include "gear/GearDistanceProperties.h"\n#include "../src/geartgeo/MaterialMap.cc"\n#include "../src/geartgeo/MaterialMapFactory.cc"\nusing namespace gear;\n'
MAPP='''struct D : GearDistanceProperties { std::vector<std::string> v; std::vector<double> d; mutable int calls=0;
 const std::vector<std::string>& getMaterialNames(const Vector3D&,const Vector3D&) const { return v; } const std::vector<std::string> getVolumeNames(const Vector3D&,const Vector3D&) const { return v; } const std::vector<double>& getMaterialThicknesses(const Vector3D&,const Vector3D&) const { return d; }
 double getNRadlen(const Vector3D&,const Vector3D&b) const { ++calls; return b.r(); } double getNIntlen(const Vector3D&,const Vector3D&b) const { return 10+b.r(); } double getBdL(const Vector3D&,const Vector3D&) const { return 0; } double getEdL(const Vector3D&,const Vector3D&) const { return 0; } };
'''
TG='#include "TGeoManager.h"\n#include "TGeoNode.h"\n#include "TGeoVolume.h"\n#include "../src/geartgeo/TGeoGearDistanceProperties.cc"\n#include "../src/geartgeo/TGeoGearPointProperties.cc"\nusing namespace gear;\n'
TGP='''struct W { TGeoManager m; std::vector<std::unique_ptr<TGeoMaterial>> mats; std::vector<std::unique_ptr<TGeoMedium>> meds; std::vector<std::unique_ptr<TGeoVolume>> vols; std::vector<std::unique_ptr<TGeoNode>> nodes;
 TGeoNode* add(TGeoNode*mo,const char*vol,const char*phys,const char*mat,double rad,double inter,double x0,double x1,double h){ mats.emplace_back(new TGeoMaterial()); mats.back()->name=mat; mats.back()->rad=rad; mats.back()->inter=inter; meds.emplace_back(new TGeoMedium()); meds.back()->mat=mats.back().get(); vols.emplace_back(new TGeoVolume()); vols.back()->name=vol; vols.back()->medium=meds.back().get(); vols.back()->mgr=&m; nodes.emplace_back(new TGeoNode()); auto*n=nodes.back().get(); n->name=phys; n->vol=vols.back().get(); n->mother=mo; n->lo[0]=x0; n->hi[0]=x1; n->lo[1]=n->lo[2]=-h; n->hi[1]=n->hi[2]=h; if(mo) mo->kids.push_back(n); else { m.top=n; m.topVolume=n->vol; } return n; } };
'''
MRG='#include "gearxml/MergeXML.h"\n#include "gearxml/tinyxml.h"\nusing namespace gear;\n'

ZL='#include "gearimpl/ZPlanarLayerLayoutImpl.h"\nusing namespace gear;\n'
SEEDS=[
dict(id='p29-outer-end-radius',prop='P29',edits=[(G+'ZPlanarLayerLayout.cc','    return ( l.internalPhi0 + atan( (l.Width/2 - l.Offset)  / (l.Distance + l.Thickness) ) ) ;','    return ( l.internalPhi0 + atan( (l.Width/2 - l.Offset)  / (l.Distance + _lVec[ layerIndex ].Thickness) ) ) ;')],
 needs='sensitive areas that are not as thick as their ladders',what='their outer ends are where the outer face of the ladder would end',inc=ZL,
 demo="ZPlanarLayerLayoutImpl y; y.addLayer(8,M_PI/2, 10,0,2,50,4,10, 10,0,0.5,50,4,10); NEAR(y.getEndOuterPhi(0,true), std::atan(2/10.5));"),
dict(id='p29-corner-of-far-side',prop='P29',edits=[(G+'ZPlanarLayerLayout.cc','    if( phi >= getStartOuterPhi( layerIndex , sensitive ) && phi <= getEndOuterPhi( layerIndex , sensitive ) ) {','    if( ( phi >= getStartOuterPhi( layerIndex , sensitive ) || l.Offset > l.Width/2 ) && phi <= getEndOuterPhi( layerIndex , sensitive ) ) {')],
 needs='a ladder moved by more than half of its width and a line that leaves through its side',what='the path goes on outside of the ladder',inc=ZL,
 demo="ZPlanarLayerLayoutImpl y; y.addLayer(8,M_PI/2, 10,3,1,50,4,10, 10,0,0.5,50,4,10); double a=-std::atan(4.9/10), t=y.getThicknessForPhi(0,a); NEAR(t, (5-4.9)/std::sin(-a));"),
dict(id='p11-repeated-row-extent',prop='P11',edits=[(G+'VersatileDiskRowLayout.cc','    double rCentre = _extent[1] + rowHeight*0.5;','    double rCentre = _extent[1] + padHeight*0.5;')],
 needs='rows higher than their pads',what='the pads sit at the bottom of their rows',inc=TPC,
 demo="VersatileDiskRowLayout v(10); v.addRow(4,0.1,5,0.,0.1,4,2); NEAR(v.getPadCenter(v.getPadIndex(0,0))[0],12.5);"),
dict(id='p15-first-module-distance',prop='P15',edits=[(G+'TPCParametersImpl.cc',"""	double shortest_distance = (*itr)->getDistanceToPad( c0, c1, closest_pad.getPadIndex() );
""","""	double shortest_distance = (*itr)->getDistanceToModule( c0, c1 );
""")],
 needs='a point inside the first module between its pads, on a pad of another module or closer to it',what='the pad of the first module wins',inc=TPC,
 demo="""TPCParametersImpl t(100,PadRowLayout2D::CARTESIAN); for(int k=0;k<2;++k){ auto*r=new RectangularPadRowLayout(0,10); r->addRow(1,1,4,10,10,3,3); auto*m=new TPCModuleImpl(k,r,PadRowLayout2D::CARTESIAN); m->setOffset(k?2.5:0,0.); t.addModule(m);} GlobalPadIndex p=t.getNearestPad(7.9,5); CHECK(p.getModuleID()==1);"""),
dict(id='p15-cathode-of-last-module',prop='P15',edits=[(G+'TPCParametersImpl.cc',"""	// we have to recalculate the cathode position since this depends on the drift length
	setCathodePosition();
""","""	// we have to recalculate the cathode position since this depends on the drift length
	if( _TPCModules.size() == 1 ) setCathodePosition();
""")],
 needs='a TPC with several modules in one half whose drift length is set afterwards',what='points are assigned to the half of the old drift length',inc=TPC,
 demo="""TPCParametersImpl t(100,PadRowLayout2D::CARTESIAN); for(int k=0;k<2;++k){ auto*r=new RectangularPadRowLayout(0,10); r->addRow(1,1,10,10,10); auto*m=new TPCModuleImpl(k,r,PadRowLayout2D::CARTESIAN); m->setZPosition(1000); m->setOffset(20*k,0); t.addModule(m);} t.setMaxDriftLength(500); CHECK(t.isInsideModule(5,5,600)); CHECK(!t.isInsideModule(5,5,400));"""),
dict(id='p03-layer-of-zero-cells',prop='P03',edits=[(X+'CalorimeterParametersXML.cc','      if( layerChanged && repN > 0 ) {','      if( layerChanged && repN > 0 && curThickness > curAbsorber ) {')],
 needs='a layer that is all absorber (thickness equal to the absorber thickness) followed by another kind of layer',what='it is written as one more repetition of the next kind',inc=MGR,
 pre='#include "gearxml/CalorimeterParametersXML.h"\n#include "gearimpl/CalorimeterParametersImpl.h"\n#include "gearxml/tinyxml.h"\nusing namespace gear;',
 demo="""CalorimeterParametersImpl c(100,200,8,0.); c.layerLayout().addLayer(5,1,1,5); c.layerLayout().addLayer(6,1,1,2); CalorimeterParametersXML x; TiXmlElement e=x.toXML(c); int n=0; for(auto*l=e.FirstChildElement("layer");l;l=l->NextSiblingElement("layer")) ++n; CHECK(n==2);"""),
]
