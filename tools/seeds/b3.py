G='src/gearimpl/'; X='src/gearxml/'
ANG='#include "gearimpl/FixedPadAngleDiskLayout.h"'; SIZ='#include "gearimpl/FixedPadSizeDiskLayout.h"'; VER='#include "gearimpl/VersatileDiskRowLayout.h"'; REC='#include "gearimpl/RectangularPadRowLayout.h"'
MOD='#include "gearimpl/TPCModuleImpl.h"\n'; TPC='#include "gearimpl/TPCParametersImpl.h"\n'
SEEDS=[
dict(id='p12-angle-left-zero',prop='P12',edits=[(G+'FixedPadAngleDiskLayout.cc','''    int rowNum_left;
    if (fabs(phi - _phiMax) > M_PI_2)''','''    int rowNum_left;
    if (fabs(phi - _phiMax) > M_PI_4)''')],
 needs='a fixed angle disk sector and a point more than 45 degrees beyond its upper edge with a large radius',what='points far beyond the upper edge of the sector always get the innermost row',
 inc=ANG,demo='''gear::FixedPadAngleDiskLayout l(100.,200.,10,0.,.5,5); int p=l.getNearestPad(250.,1.5); CHECK(l.getRowNumber(p)==3); CHECK(l.getPadNumber(p)==4);'''),
dict(id='p12-versatile-stop',prop='P12',edits=[(G+'VersatileDiskRowLayout.cc','''	      nearestPad  = rowIter->getNearestPad(r, phi);
	      distance = newDistance;
	  }
''','''	      nearestPad  = rowIter->getNearestPad(r, phi);
	      distance = newDistance;
	  }
	  else if ( newDistance > distance + rowIter->getRowHeight() )
	  {
	      // the rows are sorted in r, we are moving away from the point
	      break;
	  }
''')],
 needs='a versatile layout with a narrow row between wider ones and a point in a wide row beyond the narrow one in phi',what='the search for the nearest row stops at a narrow row although a later row contains the point',
 inc=VER,demo='''gear::VersatileDiskRowLayout l(100.); l.addRow(100,2.,10.,0.); l.addRow(2,2.,10.,0.); l.addRow(100,2.,10.,0.); int p=l.getNearestPad(125.,1.); CHECK(l.getRowNumber(p)==2);'''),
dict(id='p12-size-outer-corner',prop='P12',edits=[(G+'FixedPadSizeDiskLayout.cc','''	else if ( rProjectedOnPhiMax > _rMax && phi > _phiMax ) {
''','''	else if ( ( rProjectedOnPhiMax > _rMax || ( r > _rMax && rProjectedOnPhiMax > _rMax - 3. * _rowHeight ) ) && phi > _phiMax ) {
''')],
 needs='a fixed pad size layout that is no full circle, a point outside rMax and slightly beyond phiMax whose foot on the edge is inside the plane',what='points just outside the plane beyond the upper edge get the outermost row although another row is nearer',
 inc=SIZ,demo='''gear::FixedPadSizeDiskLayout l(100.,200.,10.,5.,10,0.,1.); int p=l.getNearestPad(205.,1.4); CHECK(l.getRowNumber(p)==8);'''),
dict(id='p13-outer-corner',prop='P13',edits=[(G+'FixedDiskLayoutBase.cc','''	    if ( r_intersect_phiMax > r_max ) ''','''	    if ( r > r_max && r_intersect_phiMax > 0.5 * ( r_min + r_max ) )''')],
 needs='a point outside the outer radius of a pad whose foot on the upper edge lies in the outer half of the pad',what='the distance is taken to the outer corner although the edge is nearer',
 inc=ANG,demo='''gear::FixedPadAngleDiskLayout l(100.,200.,1,0.,.5,1); NEAR(l.getDistanceToPad(205.,.5+.5,0),205.*sin(.5));'''),
dict(id='p13-module-inner-corner',prop='P13',edits=[(G+'TPCModuleImpl.cc','''		if ( r_intersect_phiMin < _localModuleExtent[0] )''','''		if ( r_intersect_phiMin < _localModuleExtent[0] && localC[0] < _localModuleExtent[0] + _border )''')],
 needs='a polar module and a point below its lower edge in phi with a radius inside the module range but a foot below the inner radius',what='the distance is taken to the extension of the edge towards the centre',
 inc=MOD+ANG,demo='''using namespace gear; TPCModuleImpl m(0,new FixedPadAngleDiskLayout(100.,200.,5,1.,1.5,5),PadRowLayout2D::POLAR); double r=110., d=.8; NEAR(m.getDistanceToModule(r,1.-d),sqrt(r*r+1e4-200.*r*cos(d)));'''),
dict(id='p14-border-mean-radius',prop='P14',edits=[(G+'TPCModuleImpl.cc','''			phiBorder = _border / _padRowLayout->getPlaneExtent()[0];''','''			phiBorder = 2. * _border / ( _padRowLayout->getPlaneExtent()[0] + _padRowLayout->getPlaneExtent()[1] );''')],
 needs='a module with a polar pad plane, an enlarged active area and a point in the border beside the sector',what='the border in phi is too narrow at the inner radius',
 inc=MOD+ANG,demo='''using namespace gear; TPCModuleImpl m(0,new FixedPadAngleDiskLayout(100.,200.,5,1.,1.5,5),PadRowLayout2D::POLAR); m.setBorderWidth(5.); CHECK(m.isInsideModule(150.,1.5+.049));'''),
dict(id='p14-extent-endcap',prop='P14',edits=[(G+'TPCModuleImpl.cc','''	Vector2D localOriginInGlobalCoordinates = localToGlobal( 0 , 0 );
	double testYMax''','''	Vector2D localOriginInGlobalCoordinates = _offset_cartesian;
	double testYMax''')],
 needs='a polar pad plane with a shift in x on the negative end cap of a cartesian TPC whose sector includes an axis direction',what='the extent of the module is computed around the mirrored centre',
 inc=MOD+ANG,demo='''using namespace gear; TPCModuleImpl m(0,new FixedPadAngleDiskLayout(100.,200.,5,-.5,.5,5),PadRowLayout2D::CARTESIAN); m.setZPosition(-10.); m.setOffset(30.,0.); NEAR(m.getPlaneExtent()[0],-230.);'''),
dict(id='p14-extent-sector-edge',prop='P14',edits=[(G+'TPCModuleImpl.cc','''		if ( globalOriginInLocal[0] > localExtent[0] )
		{
		    //std::cout << "# special case"''','''		if ( globalOriginInLocal[0] > localExtent[1] )
		{
		    //std::cout << "# special case"''')],
 needs='a shifted polar module in a polar TPC with the global origin between its radii but beside its sector',what='the smallest radius of the extent is too large, the module reaches further in',
 inc=MOD+ANG,demo='''using namespace gear; TPCModuleImpl m(0,new FixedPadAngleDiskLayout(100.,200.,5,0.,1.,5),PadRowLayout2D::POLAR); m.setOffset(150.,M_PI+.0-.2); /* origin seen at r=150, phi=-.2 */ NEAR(m.getPlaneExtent()[0],150.*sin(.2));'''),
dict(id='p15-drift-negative',prop='P15',edits=[(G+'TPCParametersImpl.cc','''	// we have to recalculate the cathode position since this depends on the drift length
	setCathodePosition();''','''	// we have to recalculate the cathode position since this depends on the drift length
	if ( ! _modulesPositiveHalfTPC.empty() )
	    setCathodePosition();''')],
 needs='a TPC with modules on the negative end only, whose drift length is changed afterwards, and a 3D query near the cathode',what='the cathode stays where the old drift length put it',
 inc=TPC+MOD+REC,demo='''using namespace gear; TPCParametersImpl t(100.,PadRowLayout2D::CARTESIAN); auto*l=new RectangularPadRowLayout(0.,10.); l->addRow(1,5,2.,10.,10.,0.,0.); auto*m=new TPCModuleImpl(0,l,PadRowLayout2D::CARTESIAN); m->setZPosition(-50.); t.addModule(m); t.setMaxDriftLength(1000.); CHECK(t.isInsideModule(-5.,5.,500.)); bool th=false; try{ t.getNearestModule(0.,0.,500.);}catch(gear::Exception&){th=true;} CHECK(!th);'''),
dict(id='p15-cathode-late',prop='P15',edits=[(G+'TPCParametersImpl.cc','''	  // internal helper function to avoid code duplication
	  setCathodePosition();''','''	  // internal helper function to avoid code duplication
	  // (all modules of one end cap are at the same z)
	  if ( _modulesPositiveHalfTPC.size() + _modulesNegativeHalfTPC.size() <= 2 )
	    setCathodePosition();''')],
 needs='at least two modules on one end cap before the first one of the other end is added, and a query between the two cathode positions',what='the cathode is not moved to the middle when the other end cap gets its first module late',
 inc=TPC+MOD+REC,demo='''using namespace gear; TPCParametersImpl t(100.,PadRowLayout2D::CARTESIAN); for(int i=0;i<3;++i){ auto*l=new RectangularPadRowLayout(0.,10.); l->addRow(1,5,2.,10.,10.,0.,0.); auto*m=new TPCModuleImpl(i,l,PadRowLayout2D::CARTESIAN); m->setZPosition(i<2?400.:-400.); t.addModule(m);} CHECK(t.getNearestModule(5.,5.,100.).getModuleID()==0); CHECK(t.getNearestModule(5.,5.,-100.).getModuleID()==2);'''),
dict(id='p16-tpc-cathode',prop='P16',also=['P15'],edits=[(G+'TPCParametersImpl.cc','''	// copy all the other variables
	_maxDriftLength = right._maxDriftLength;''','''	// the cathode position follows from the modules
	setCathodePosition();

	// copy all the other variables
	_maxDriftLength = right._maxDriftLength;'''),(G+'TPCParametersImpl.cc','''	_cathodePosition = right._cathodePosition;
''','')],
 needs='a copy of a TPC with modules on one end cap only and a 3D query between the anode and the cathode of the copy',what='the copy computes its cathode position from the drift length it had before',
 inc=TPC+MOD+REC,demo='''using namespace gear; TPCParametersImpl t(100.,PadRowLayout2D::CARTESIAN); auto*l=new RectangularPadRowLayout(0.,10.); l->addRow(1,5,2.,10.,10.,0.,0.); auto*m=new TPCModuleImpl(0,l,PadRowLayout2D::CARTESIAN); m->setZPosition(200.); t.addModule(m); TPCParametersImpl c(1.,PadRowLayout2D::CARTESIAN); c=t; CHECK(t.isInsideModule(5.,5.,150.)); CHECK(c.isInsideModule(5.,5.,150.));'''),
dict(id='p16-rect-repeat',prop='P16',edits=[(G+'RectangularPadRowLayout.cc','''      _repeatRows = right._repeatRows;
''','''      if( right._repeatRows > 1 )
	_repeatRows = right._repeatRows;
''')],
 needs='assigning a layout that was never repeated (or once) to one whose rows had been repeated, then repeating its rows',what='the assigned layout keeps the repetition count of what it was before and refuses to repeat',
 inc=REC,demo='''using namespace gear; RectangularPadRowLayout a(0.,10.),b(0.,20.); a.addRow(1,5,2.,10.); a.repeatRows(3); b.addRow(2,5,2.,10.); a=b; CHECK(a.getNRows()==2); a.repeatRows(2); CHECK(a.getNRows()==4);'''),
dict(id='p16-module-z-one',prop='P16',also=['P05'],edits=[(G+'TPCModuleImpl.cc','''	_zPositionIsSet = right._zPositionIsSet;''','''	_zPositionIsSet = ( _zPosition != 1. ); // 1. is the default''')],
 needs='a module whose z position was set to exactly 1 and then copied',what='the copy of a module at z=1 claims to have no z position',
 inc=MOD+REC,demo='''using namespace gear; auto*l=new RectangularPadRowLayout(0.,10.); l->addRow(1,5,2.,10.); TPCModuleImpl m(0,l,PadRowLayout2D::CARTESIAN); m.setZPosition(1.); TPCModuleImpl c(m); bool th=false; try{ CHECK(c.getZPosition()==1.);}catch(...){th=true;} CHECK(!th);'''),
]
