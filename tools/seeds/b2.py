G='src/gearimpl/'; X='src/gearxml/'; S='src/gearsurf/'
SEEDS=[
dict(id='p18-ordered-layers',prop='P18',edits=[(G+'ZPlanarParametersImpl.cc','''    for ( int nearestLayer=0 ; nearestLayer < _layer.getNLayers() ; nearestLayer++ ) {
''','''    for ( int nearestLayer=0 ; nearestLayer < _layer.getNLayers() ; nearestLayer++ ) {

      // all further layers are too far outside
      if( ! sensitive && _layer.getLadderDistance( nearestLayer ) - sqrt( p[0]*p[0] + p[1]*p[1] ) > minDistance )
	break ;
''')],needs='layers that are not stored in the order of increasing radius',what='the search for the nearest ladder stops at the first layer further out than the best candidate, so a nearer layer stored after it is missed',
 inc='#include "gearimpl/ZPlanarParametersImpl.h"',demo='''using namespace gear; ZPlanarParametersImpl zi(1,0,0,0,0,0); const ZPlanarParameters& z=zi; auto add=[&](double d){ const_cast<ZPlanarLayerLayoutImpl&>(dynamic_cast<const ZPlanarLayerLayoutImpl&>(z.getZPlanarLayerLayout())).addLayer(4,0.,d,0.,1.,100.,10.,0.,d,0.,1.,100.,10.,0.); };
 add(50.); add(200.); add(60.); Vector3D d=z.distanceToNearestLadder(Vector3D(70.,0.,10.)); NEAR(d.r(),9.);'''),
dict(id='p17-module-azimuth',prop='P17',edits=[(G+'ZPlanarParametersImpl.cc','''	    sensorID->module  = ( i ? nLadders - i : 0  ) ; 
''','''	    int module = (int) floor( ( atan2( p[1] , p[0] ) - ( M_PI/2. - _layer.getInternalPhi0( possibleLayer ) ) ) / deltaPhi + 0.5 ) % nLadders ;
	    sensorID->module  = ( module < 0 ? module + nLadders : module ) ;
''')],needs='a point of a ladder that reaches into the azimuthal range of the next ladder (large offset or wide ladder)',what='the module number is taken from the azimuth of the point instead of the ladder that contains it',
 inc='#include "gearimpl/ZPlanarParametersImpl.h"\n#include "gear/GEAR.h"',demo='''using namespace gear; ZPlanarParametersImpl zi(1,0,0,0,0,0); const ZPlanarParameters& z=zi; const_cast<ZPlanarLayerLayoutImpl&>(dynamic_cast<const ZPlanarLayerLayoutImpl&>(z.getZPlanarLayerLayout())).addLayer(4,0.,50.,60.,1.,100.,40.,0.,50.,60.,1.,100.,40.,0.);
 SensorID id; CHECK(z.isPointInSensitive(Vector3D(50.5,70.,10.),&id)); CHECK(id.module==0);'''),
dict(id='p17-gap-no-shell',prop='P17',edits=[(G+'ZPlanarParametersImpl.cc','''      zStart = _shellGap/2 ;
      
      // find out delta phi''','''      zStart = ( fabs( _shellHalfLength ) > 1e-3 ? _shellGap/2 : 0. ) ;
      
      // find out delta phi''')],needs='a tracker without shell (half length 0) but with a gap between the two halves',what='points in the gap between the two halves count as inside the ladders',
 inc='#include "gearimpl/ZPlanarParametersImpl.h"',demo='''using namespace gear; ZPlanarParametersImpl zi(1,0,0,0,10.,0); const ZPlanarParameters& z=zi; const_cast<ZPlanarLayerLayoutImpl&>(dynamic_cast<const ZPlanarLayerLayoutImpl&>(z.getZPlanarLayerLayout())).addLayer(4,0.,50.,0.,1.,100.,40.,0.,50.,0.,1.,100.,40.,0.);
 CHECK(!z.isPointInLadder(Vector3D(50.5,0.,1.))); CHECK(z.isPointInLadder(Vector3D(50.5,0.,6.)));'''),
dict(id='p18-first-layer-hit',prop='P18',edits=[(G+'ZPlanarParametersImpl.cc','''      // get deltaPhi between ladders
      double deltaPhi = ( 2 * M_PI ) / _layer.getNLadders( takeLayer ) ;
''','''      // a track from inside reaches the inner layers first
      if( currentLength < std::numeric_limits<double>::max() && p[0]*p[0] + p[1]*p[1] < _layer.getLadderDistance( 0 ) * _layer.getLadderDistance( 0 ) )
	break ;

      // get deltaPhi between ladders
      double deltaPhi = ( 2 * M_PI ) / _layer.getNLadders( takeLayer ) ;
''')],needs='a line from inside the first layer that meets a later layer before an earlier one (layers not ordered by radius)',what='the intersection with the first layer of the list that is hit is returned instead of the nearest one',
 inc='#include "gearimpl/ZPlanarParametersImpl.h"',demo='''using namespace gear; ZPlanarParametersImpl zi(1,0,0,0,0,0); const ZPlanarParameters& z=zi; auto add=[&](double d){ const_cast<ZPlanarLayerLayoutImpl&>(dynamic_cast<const ZPlanarLayerLayoutImpl&>(z.getZPlanarLayerLayout())).addLayer(4,0.,d,0.,1.,100.,10.,0.,d,0.,1.,100.,10.,0.); };
 add(80.); add(60.); Vector3D d=z.intersectionLadder(Vector3D(1.,0.5,10.),Vector3D(1.,0.,0.)); NEAR(d[0],60.);'''),
dict(id='p19-negative-offset-sign',prop='P19',edits=[(G+'FTDLayerLayoutImpl.cc','''	int offsetsign = petal.zsign0*(int)pow((double)-1,(double)petalIndex);
''','''	int offsetsign = ( petalIndex % 2 == 0 ) == ( petal.zsign0 > 0 ) ? 1 : -1;
	// the disks of the negative side are rotated
	if( layerId != layerIndex && petal.nPetals % 2 == 1 ) offsetsign = -offsetsign;
''')],needs='a disk on the negative side with an odd number of petals and a z offset',what='the staggering of the negative side is inverted for disks with an odd number of petals',
 inc='#include "gearimpl/FTDParametersImpl.h"\n#include "gearimpl/FTDLayerLayoutImpl.h"',demo='''using namespace gear; FTDLayerLayoutImpl l; l.addLayer(7,2,false,1,0.4,0.,0.,200.,3.,1.,10.,1.,20.,30.,40.,0.,10.,1.,20.,30.,40.,0.);
 NEAR(l.getSupportZposition(0,0),203.); NEAR(l.getSupportZposition(1,0),-203.); NEAR(l.getSupportZposition(1,1),-197.);'''),
dict(id='p19-back-sensor',prop='P19',edits=[(G+'FTDLayerLayoutImpl.cc','''sensorIndex > _lVec.at(layerId).nSensors/2 ) ){ // If''','''sensorIndex > _lVec.at(layerIndex % (int)_lVec.size()).nSensors/2 && _sVec.at(0).nSensors/2 < sensorIndex ) ){ // If''')],needs='disks with different numbers of sensors per petal, the first having more than a later double-sided one',what='the first back-side sensors of a disk are taken as front side when the first disk has more sensors',
 inc='#include "gearimpl/FTDParametersImpl.h"\n#include "gearimpl/FTDLayerLayoutImpl.h"',demo='''using namespace gear; FTDLayerLayoutImpl l; l.addLayer(8,6,true,1,0.4,0.,0.,100.,0.,1.,10.,1.,20.,30.,40.,0.,10.,1.,20.,30.,40.,0.); l.addLayer(8,2,true,1,0.4,0.,0.,200.,0.,1.,10.,1.,20.,30.,40.,0.,10.,1.,20.,30.,40.,0.);
 NEAR(l.getSensitiveZposition(1,0,2),201.); NEAR(l.getSensitiveZposition(1,0,1),199.);'''),
dict(id='p20-first-layer-distance',prop='P20',edits=[(G+'LayerLayoutImpl.cc','''      l.Distance = _vec.back().Distance + _vec.back().Thickness ;''','''      l.Distance = _vec.back().Distance + std::max( _vec.back().Thickness , _vec.back().AbsorberThickness ) ;'''),(G+'LayerLayoutImpl.cc','''#include "gearimpl/LayerLayoutImpl.h"
''','''#include "gearimpl/LayerLayoutImpl.h"
#include <algorithm>
''')],needs='a layer whose absorber is given thicker than the layer itself',what='the next layer leaves a gap after a layer with an oversized absorber thickness',
 inc='#include "gearimpl/CalorimeterParametersImpl.h"',demo='''gear::CalorimeterParametersImpl c(1.,20.,8,0.); c.layerLayout().positionLayer(10.,2.,1.,1.,3.); c.layerLayout().addLayer(1.,1.,1.,0.); NEAR(c.getLayerLayout().getDistance(1),12.);'''),
dict(id='p21-dut-keeps-first',prop='P21',edits=[(G+'SiPlanesLayerLayout.cc','''    lDUT.RadLength  = dutRadLength ;
''','''    lDUT.RadLength  = ( _lVec.empty() || dutRadLength > 0. ? dutRadLength : _lVec.front().RadLength ) ;
''')],needs='a DUT with radiation length 0 in a telescope with planes',what='the radiation length of the DUT is replaced by that of the first plane if it is 0',
 inc='#include "gearimpl/SiPlanesParametersImpl.h"',demo='''using namespace gear; SiPlanesLayerLayoutImpl l; l.addLayer(1,0,0,0,0,0,0,1,1,1,5.,1,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,1,1,0,0,1,7.);
 l.addDUT(2,0,0,0,1,1,1,0.,2,0,0,0,1,1,1,1,1,1,1,1,1,0,0,1,0.); NEAR(l.getDUTRadLength(),0.);'''),
dict(id='p21-rotation-old-interface',prop='P21',edits=[(G+'SiPlanesLayerLayout.cc','''		        0., 0., 0., // pass zeros as these fields were never present in the old interface
''','''		        0., 0., sensitiveRotation1 * sensitiveRotation4 < sensitiveRotation2 * sensitiveRotation3 ? M_PI : 0., // a mirrored sensor is seen from the back
''')],needs='the short addLayer with a rotation matrix of determinant -1',what='a sensitive rotation that was never given is reported for mirrored sensors added with the short interface',
 inc='#include "gearimpl/SiPlanesParametersImpl.h"',demo='''using namespace gear; SiPlanesLayerLayoutImpl l; l.addLayer(1,0,0,0,1,1,1,5.,1,0,0,0,1,1,1,1,1,1,1,1,1.,0.,0.,-1.,7.);
 NEAR(l.getSensitiveRotationXY(0),0.); NEAR(l.getSensitiveRotationZY(0),0.); NEAR(l.getSensitiveRotationZX(0),0.);'''),
dict(id='p22-theta-small',prop='P22',edits=[('include/gear/gearimpl/Vector3D.h','''    return _x == 0.0 && _y == 0.0 && _z == 0.0 ? 0.0 : atan2( rho(),_z) ;''','''    return _x == 0.0 && _y == 0.0 ? 0.0 : atan2( rho(),_z) ;''')],needs='a vector exactly along the negative z axis',what='the polar angle of a vector along -z is 0 instead of pi',
 inc='#include "gearimpl/Vector3D.h"',demo='''gear::Vector3D v(0.,0.,-2.); NEAR(v.theta(),M_PI);'''),
dict(id='p22-phi-quadrant',prop='P22',edits=[('include/gear/gearimpl/Vector3D.h','''    return _x == 0.0 && _y == 0.0 ? 0.0 : atan2(_y,_x);''','''    if( _x == 0.0 ) return _y > 0.0 ? M_PI/2. : ( _y < 0.0 ? 3.*M_PI/2. : 0.0 ) ;

    return atan2(_y,_x);''')],needs='a vector exactly along the negative y axis',what='phi of a vector with x=0 and y<0 is 3pi/2 instead of -pi/2, outside of the range of atan2',
 inc='#include "gearimpl/Vector3D.h"',demo='''gear::Vector3D v(0.,-1.,3.); NEAR(v.phi(),-M_PI/2);'''),
dict(id='p22-unit-inplace',prop='P22',edits=[('include/gear/gearimpl/Vector3D.h','''    double n = r() ;
    return Vector3D( _x / n , _y / n , _z / n ) ;''','''    double n = r2() ;
    if( n != 1. ) n = sqrt( float( n ) ) ;
    return Vector3D( _x / n , _y / n , _z / n ) ;''')],needs='comparing the length of a unit vector beyond single precision',what='unit vectors are only normalised to single precision',
 inc='#include "gearimpl/Vector3D.h"',demo='''gear::Vector3D v(1.,2.,3.3); NEAR(v.unit().r(),1.);'''),
dict(id='p23-trapezoid-rotation',prop='P23',surf=True,edits=[(S+'BoundaryTrapezoid.cc','''    double width = (_baseBottom + _baseTop)/2.  + local.y() * (_baseTop - _baseBottom) / _height;''','''    double width = (_baseBottom + _baseTop)/2.  + std::fabs( local.y() ) * (_baseTop - _baseBottom) / _height;''')],needs='a trapezoid (bases differ) and a point in its lower half near the slanted edge',what='the lower half of a trapezoid has the width of the mirrored upper half',
 inc='#include "gearsurf/BoundaryTrapezoid.h"',demo='''gear::BoundaryTrapezoid t(10.,20.,10.,1.,0.); CHECK(!t.isInBoundary(CLHEP::Hep3Vector(7.,-4.,0.))); CHECK(t.isInBoundary(CLHEP::Hep3Vector(7.,4.,0.)));'''),
dict(id='p23-store-partial-fill',prop='P23',surf=True,edits=[(S+'MeasurementSurfaceStore.cc','''      for (it = surface_list.begin(); it!=surface_list.end(); ++it) {
        this->addMeasurementSurface(*it);
      }
      
      _store_filled = true;''','''      _store_filled = true;

      for (it = surface_list.begin(); it!=surface_list.end(); ++it) {
        this->addMeasurementSurface(*it);
      }
''')],needs='a filler that gives two surfaces with the same ID',what='the store counts as filled although filling it was refused',
 inc='#include "gearsurf/MeasurementSurfaceStore.h"\n#include "gearsurf/MeasurementSurface.h"\n#include "gear/GEAR.h"',pre='''struct F: gear::MeasurementSurfaceStoreFiller { void getMeasurementSurfaces(std::vector<gear::MeasurementSurface*>& v) const { v.push_back(new gear::MeasurementSurface(1,0,0)); v.push_back(new gear::MeasurementSurface(1,0,0)); } std::string getName() const { return "f"; } };''',
 demo='''gear::MeasurementSurfaceStore s; F f; bool t=false; try{ s.FillStore(&f);}catch(gear::Exception&){t=true;} CHECK(t); CHECK(!s.isFilled());'''),
dict(id='p23-rotate-z',prop='P23',surf=True,edits=[(S+'BoundaryRectangle.cc','''    R.rotateZ( -_alpha);''','''    R.rotateZ( _width < _length ? -_alpha : _alpha );''')],needs='a rotated rectangle wider than long, with an angle that is no multiple of pi/2',what='wide rectangles are rotated the wrong way',
 inc='#include "gearsurf/BoundaryRectangle.h"',demo='''gear::BoundaryRectangle t(20.,2.,1.,M_PI/6); CHECK(t.isInBoundary(CLHEP::Hep3Vector(9.*cos(M_PI/6),9.*sin(M_PI/6),0.)));'''),
]
