G='src/gearimpl/'; X='src/gearxml/'
MGR='#include "gearimpl/GearMgrImpl.h"\n#include "gearxml/GearXML.h"\n#include "gear/GEAR.h"\n'
RD='''static std::unique_ptr<gear::GearMgr> rd(const std::string&s){ std::ofstream("g.xml")<<s; gear::GearXML x("g.xml"); return std::unique_ptr<gear::GearMgr>(x.createGearMgr()); }
static std::unique_ptr<gear::GearMgr> again(gear::GearMgr*m){ gear::GearXML::createXMLFile(m,"g.xml"); gear::GearXML x("g.xml"); return std::unique_ptr<gear::GearMgr>(x.createGearMgr()); }
static const std::string A="<gear><global detectorName='d'/><detectors>", Z="</detectors></gear>";
static std::string RECT(){ return "<PadRowLayout2D type='RectangularPadRowLayout' yMin='0' xMin='0' xMax='10'><row nPad='5' padWidth='2' padHeight='10' rowHeight='10'/></PadRowLayout2D>"; }
static std::string FSD(){ return "<PadRowLayout2D type='FixedPadSizeDiskLayout' rMin='100' rMax='200' padHeight='10' padWidth='5' maxRow='10' padGap='0'/>"; }
'''
RDT=RD+'#include "gear/TPCParameters.h"\n#include "gear/TPCModule.h"\n'
XML='#include "gearxml/tinyxml.h"\nusing namespace gear;\n'
SIP='#include "gearimpl/SiPlanesParametersImpl.h"\n'
TPL='#include "gearimpl/TrackerPlanesParametersImpl.h"\n#include "gearimpl/TrackerPlanesLayerLayoutImpl.h"\n'
MRG='#include "gearxml/MergeXML.h"\n#include "gearxml/tinyxml.h"\nusing namespace gear;\n'
SEEDS=[
dict(id='p04-perfect-resolution',prop='P04',edits=[(X+'SiPlanesParametersXML.cc','    if( sResolX < 0 ) sResolX = sResol;\n','    if( sResolX <= 0 ) sResolX = sResol;\n')],
 needs='a telescope plane with a resolution in x of zero and another general resolution',what='the resolution in x read back is the general resolution instead of zero',
 inc=MGR+SIP,pre=RD,demo='''using namespace gear; GearMgrImpl m; auto*p=new SiPlanesParametersImpl(1,SiPlanesParameters::TelescopeWithoutDUT,1); p->addLayer(1,0,0,0,0,0,0,10,10,1,10, 1,0,0,0,0,0,0,10,10,1,5,5,2,2,.5,0.,.25,1,0,0,1,10); m.setSiPlanesParameters(p); auto q=again(&m); NEAR(q->getSiPlanesParameters().getSiPlanesLayerLayout().getSensitiveResolutionX(0),0.); NEAR(q->getSiPlanesParameters().getSiPlanesLayerLayout().getSensitiveResolutionY(0),.25);'''),
dict(id='p04-planes-number',prop='P04',edits=[(X+'SiPlanesParametersXML.cc','''    nplanes.SetAttribute("number", param->getSiPlanesNumber()) ;''','''    nplanes.SetAttribute("number", param->getSiPlanesLayerLayout().getNLayers()) ;''')],
 needs='a telescope whose nominal number of planes differs from the number of described layers',what='the number of planes is replaced by the number of layers',
 inc=MGR+SIP,pre=RD,demo='''using namespace gear; GearMgrImpl m; auto*p=new SiPlanesParametersImpl(1,SiPlanesParameters::TelescopeWithoutDUT,6); p->addLayer(1,0,0,0,0,0,0,10,10,1,10, 1,0,0,0,0,0,0,10,10,1,5,5,2,2,.5,0.,.25,1,0,0,1,10); m.setSiPlanesParameters(p); auto q=again(&m); CHECK(q->getSiPlanesParameters().getSiPlanesNumber()==6);'''),
dict(id='p05-offset-y',prop='P05',also=['P06'],edits=[(X+'TPCModuleXML.cc','''    tpcModuleXML.InsertEndChild(offsetElement);''','''    if ( module->getOffset()[0] != 0. )
      tpcModuleXML.InsertEndChild(offsetElement);''')],
 needs='a TPC module shifted in y only (x offset exactly 0)',what='the offset of the module is lost in the file',
 inc=MGR+'#include "gearimpl/TPCParametersImpl.h"\n#include "gearimpl/TPCModuleImpl.h"\n#include "gearimpl/RectangularPadRowLayout.h"\n',pre=RD,demo='''using namespace gear; GearMgrImpl m; auto*t=new TPCParametersImpl(100.,PadRowLayout2D::CARTESIAN); auto*l=new RectangularPadRowLayout(0.,10.); l->addRow(1,5,2.,10.); auto*mo=new TPCModuleImpl(3,l,PadRowLayout2D::CARTESIAN); mo->setOffset(0.,50.); t->addModule(mo); m.setTPCParameters(t); auto q=again(&m); NEAR(q->getTPCParameters().getModule(3).getOffset()[1],50.);'''),
dict(id='p06-own-offset-angle',prop='P06',edits=[(X+'TPCModuleXML.cc','''    if ( ( angleElement == 0 ) && defaultModuleElement )// tag has not been found
''','''    if ( ( angleElement == 0 ) && defaultModuleElement && moduleElement->FirstChildElement( "offset" ) == 0 )// tag has not been found
''')],
 needs='a section with a default angle and a module that gives its own offset but no angle',what='the module is not rotated by the angle of the default',
 inc=MGR,pre=RDT,demo='''auto q=rd(A+"<detector name='TPC' geartype='TPCParameters'><maxDriftLength value='100'/><coordinateType value='cartesian'/><modules><default><readoutFrequency value='1'/><angle value='0.5'/>"+RECT()+"</default><module><moduleID value='1'/><offset x_r='1' y_phi='2'/></module></modules></detector>"+Z); NEAR(q->getTPCParameters().getModule(1).getAngle(),.5);'''),
dict(id='p06-second-default',prop='P06',edits=[(X+'TPCParametersXML.cc','''                    defaultModuleElement = moduleElement;''','''                    if (defaultModuleElement==0) defaultModuleElement = moduleElement;''')],
 needs='a modules section with two default elements',what='the second default is ignored, later modules get the values of the first one',
 inc=MGR,pre=RDT,demo='''auto q=rd(A+"<detector name='TPC' geartype='TPCParameters'><maxDriftLength value='100'/><coordinateType value='cartesian'/><modules><default><readoutFrequency value='1'/>"+RECT()+"</default><module><moduleID value='1'/></module><default><readoutFrequency value='2'/>"+RECT()+"</default><module><moduleID value='2'/><offset x_r='100' y_phi='2'/></module></modules></detector>"+Z); NEAR(q->getTPCParameters().getModule(2).getReadoutFrequency(),2.); NEAR(q->getTPCParameters().getModule(1).getReadoutFrequency(),1.);'''),
dict(id='p06-module-count',prop='P06',edits=[(X+'TPCParametersXML.cc','''	    int moduleIDOffset=0;''','''	    int moduleIDOffset=modularTPC->getNModules();''')],
 needs='a TPC with two modules sections that start counting at a given number, the second one without explicit module IDs',what='modules of the second section are counted from the wrong number',
 inc=MGR,pre=RDT,demo='''auto S=[](int s,int y){ return "<modules moduleIDStartCount='"+std::to_string(s)+"'><module><readoutFrequency value='1'/><offset x_r='0' y_phi='"+std::to_string(y)+"'/>"+RECT()+"</module></modules>"; }; auto q=rd(A+"<detector name='TPC' geartype='TPCParameters'><maxDriftLength value='100'/><coordinateType value='cartesian'/>"+S(10,0)+S(20,100)+"</detector>"+Z); CHECK(q->getTPCParameters().getModules()[1]->getModuleID()==20);'''),
dict(id='p06-octal',prop='P06',also=['P03'],edits=[(X+'GearParametersXML.cc','''    return atoi( str.c_str() )  ; ''','''    return (int) strtol( str.c_str() , 0 , 0 )  ; ''')],
 needs='an integer parameter with leading zeros in the file',what='numbers with leading zeros are read as octal',
 inc=MGR,pre=RD,demo='''auto q=rd(A+"<detector name='x' geartype='GearParameters'><parameter name='i' type='int' value='010'/></detector>"+Z); CHECK(q->getGearParameters("x").getIntVal("i")==10);'''),
dict(id='p06-geartype-break',prop='P06',edits=[(X+'GearXML.cc','''		  << " with missing attribute \\"geartype\\" " << std::endl ;

	continue ;''','''		  << " with missing attribute \\"geartype\\" " << std::endl ;

	break ;''')],
 needs='a detector without geartype in front of other detectors',what='detectors behind one without geartype are silently not read',
 inc=MGR,pre=RD,demo='''auto q=rd(A+"<detector name='y'/><detector name='x' geartype='GearParameters'><parameter name='i' type='int' value='10'/></detector>"+Z); bool ok=true; try{ ok=q->getGearParameters("x").getIntVal("i")==10; }catch(gear::Exception&){ok=false;} CHECK(ok);'''),
dict(id='p07-layout-unknown',prop='P07',edits=[(X+'TPCParametersXML.cc','''	if( layoutXML == 0 ) {''','''	if( layoutXML == 0 && layoutType.empty() ) {''')],
 needs='a TPC in the old syntax with a pad layout type that does not exist',what='reading the file crashes instead of throwing',
 inc=MGR,pre=RD,demo='''bool th=false; try{ rd(A+"<detector name='TPC' geartype='TPCParameters'><maxDriftLength value='100'/><driftVelocity value='1'/><readoutFrequency value='1'/><PadRowLayout2D type='Rectangle'/></detector>"+Z); }catch(gear::ParseException&){th=true;} CHECK(th);'''),
dict(id='p07-calo-type',prop='P07',edits=[(X+'CalorimeterParametersXML.cc','''    if( layoutType != "barrel" &&  layoutType != "endcap" ) {''','''    if( layoutType.compare( 0, 6, "barrel" ) != 0 &&  layoutType.compare( 0, 6, "endcap" ) != 0 ) {''')],
 needs='a calorimeter whose layout type only begins with barrel or endcap',what='reading the file crashes instead of throwing',
 inc=MGR,pre=RD,demo='''bool th=false; try{ rd(A+"<detector name='EcalBarrel' geartype='CalorimeterParameters'><layout type='Barrels' symmetry='8' phi0='0'/><dimensions inner_r='1' outer_z='2'/><layer repeat='1' thickness='1' absorberThickness='1' cellSize0='1' cellSize1='1'/></detector>"+Z); }catch(gear::ParseException&){th=true;} CHECK(th);'''),
dict(id='p07-entity-end',prop='P07',also=['P08'],edits=[(X+'tinyxmlparser.cc','''			const char* q = p+2;
			q = strchr( q, ';' );

			if ( !q || !*q ) return 0;
''','''			const char* q = p+2;
			q = strchr( q, ';' );
''')],
 needs='a decimal character reference without semicolon in the rest of the file',what='the parser crashes',
 inc=MGR,pre=RD,demo='''bool th=false; try{ rd("<gear><global detectorName='d&#65'/><detectors></detectors></gear>"); th=true; }catch(gear::ParseException&){th=true;} CHECK(th);'''),
dict(id='p08-replace-only',prop='P08',edits=[(X+'tinyxml.cc','''		replaceThis->next->prev = node;
	else
		lastChild = node;

	if ( replaceThis->prev )
		replaceThis->prev->next = node;
	else
		firstChild = node;
''','''		replaceThis->next->prev = node;
	else if ( replaceThis->prev )
		lastChild = node;

	if ( replaceThis->prev )
		replaceThis->prev->next = node;
	else
		firstChild = node;
''')],
 needs='replacing the only child of a node and adding a further child afterwards',what='the last child still is the deleted node; children added afterwards are lost or memory is corrupted',
 inc=XML,demo='''TiXmlElement e("a"); TiXmlNode*c=e.InsertEndChild(TiXmlElement("b")); e.ReplaceChild(c,TiXmlElement("c")); CHECK(e.LastChild()==e.FirstChild());'''),
dict(id='p08-tab-text',prop='P08',edits=[(X+'tinyxml.cc','''		else if ( c < 32 )
''','''		else if ( c < 32 && c != 9 )
''')],
 needs='a text containing a tab that is written and parsed again',what='the tab is turned into a blank',
 inc=XML,demo='''TiXmlDocument d; TiXmlElement e("a"); e.InsertEndChild(TiXmlText("x\\ty")); d.InsertEndChild(e); std::string s; s<<d; TiXmlDocument f; f.Parse(s.c_str()); CHECK(std::string(f.RootElement()->FirstChild()->Value())=="x\\ty");'''),
dict(id='p08-sibling-name',prop='P08',also=['P06'],edits=[(X+'tinyxml.cc','''const TiXmlElement* TiXmlNode::NextSiblingElement( const char * _value ) const
{
	const TiXmlNode* node;

	for (	node = NextSibling( _value );
	node;
	node = node->NextSibling( _value ) )''','''const TiXmlElement* TiXmlNode::NextSiblingElement( const char * _value ) const
{
	const TiXmlNode* node;

	for (	node = NextSibling( _value );
	node;
	node = node->NextSibling() )''')],
 needs='a comment that consists of the name that is searched, followed by an element of another name',what='the search for the next element of a name returns an element of another name',
 inc=XML,demo='''TiXmlElement e("r"); e.InsertEndChild(TiXmlElement("a")); TiXmlComment c; c.SetValue("a"); e.InsertEndChild(c); e.InsertEndChild(TiXmlElement("b")); const TiXmlElement*f=((const TiXmlElement&)e).FirstChildElement("a"); CHECK(f->NextSiblingElement("a")==0);'''),
dict(id='p08-text-first',prop='P08',edits=[(X+'tinyxml.cc','''	else if ( firstChild == lastChild && firstChild->ToText() )
''','''	else if ( firstChild->ToText() && ( firstChild == lastChild || lastChild->ToText() ) )
''')],
 needs='an element that starts and ends with a text and has other children in between, written to a file',what='only the first text is written',
 inc=XML,demo='''TiXmlDocument d; TiXmlElement e("a"); e.InsertEndChild(TiXmlText("x")); e.InsertEndChild(TiXmlElement("b")); e.InsertEndChild(TiXmlText("y")); d.InsertEndChild(e); CHECK(d.SaveFile("o.xml")); TiXmlDocument f; CHECK(f.LoadFile("o.xml")); CHECK(f.RootElement()->FirstChildElement("b")!=0);'''),
dict(id='p08-decimal-carry',prop='P08',edits=[(X+'tinyxmlparser.cc','''		unsigned mult = 1;
''','''		unsigned short mult = 1;
''')],
 needs='a character reference with enough leading digits that the place value exceeds 16 bit, i.e. characters beyond the basic plane',what='characters beyond U+FFFF are decoded wrongly',
 inc=XML,demo='''TiXmlDocument d; d.Parse("<?xml version='1.0' encoding='UTF-8'?><a b='&#x1F600;'/>",0,TIXML_ENCODING_UTF8); CHECK(std::string(d.RootElement()->Attribute("b"))=="\\xF0\\x9F\\x98\\x80");'''),
dict(id='p09-empty-attribute',prop='P09',edits=[(X+'MergeXML.cc','''	  domElement->SetAttribute( attName, loopAttribute->Value() ) ;''','''	  if( *loopAttribute->Value() )
	    domElement->SetAttribute( attName, loopAttribute->Value() ) ;''')],
 needs='an attribute with an empty value that only the recessive file has',what='the attribute is lost in the merged file',
 inc=MRG,demo='''std::ofstream("1.xml")<<"<gear><detectors><detector name='a' geartype='GearParameters' x=''/></detectors></gear>"; std::ofstream("2.xml")<<"<gear><detectors><detector name='a' geartype='GearParameters'/></detectors></gear>"; gear::MergeXML m; CHECK(m.setFile1("1.xml")); CHECK(m.setFile2("2.xml")); CHECK(m.mergeFiles("o.xml")); TiXmlDocument d; CHECK(d.LoadFile("o.xml")); CHECK(d.RootElement()->FirstChildElement("detectors")->FirstChildElement("detector")->Attribute("x")!=0);'''),
dict(id='p09-bare-element',prop='P09',edits=[(X+'MergeXML.cc','''	  domNode->InsertEndChild( *loopNode ) ;''','''	  if( ! loopNode->ToElement() || loopNode->FirstChild() || loopNode->ToElement()->FirstAttribute() )
	    domNode->InsertEndChild( *loopNode ) ;''')],
 needs='an element without attributes and contents that only the recessive file has',what='the element is lost in the merged file',
 inc=MRG,demo='''std::ofstream("1.xml")<<"<gear><detectors><detector name='a' geartype='GearParameters'><flag/></detector></detectors></gear>"; std::ofstream("2.xml")<<"<gear><detectors><detector name='a' geartype='GearParameters'><b/></detector></detectors></gear>"; gear::MergeXML m; CHECK(m.setFile1("1.xml")); CHECK(m.setFile2("2.xml")); CHECK(m.mergeFiles("o.xml")); TiXmlDocument d; CHECK(d.LoadFile("o.xml")); CHECK(d.RootElement()->FirstChildElement("detectors")->FirstChildElement("detector")->FirstChildElement("flag")!=0);'''),
dict(id='p24-last-layer',prop='P24',edits=[(G+'Util.cc',''' 	  ( i == nLayer-1 ) ) {''',''' 	  ( i == nLayer-1 && i == 0 ) ) {''')],
 needs='a calorimeter whose last layers have equal thicknesses',what='the last layer, i.e. the end of the stack, is not printed',
 inc=MGR+'#include "gearimpl/CalorimeterParametersImpl.h"\n#include "gearimpl/Util.h"\n',demo='''using namespace gear; CalorimeterParametersImpl c(100.,200.,8,0.); for(int i=0;i<5;++i) c.layerLayout().positionLayer(0.,3.,1.,1.,1.); std::ostringstream s; s<<(const CalorimeterParameters&)c; CHECK(s.str().find("id: 4")!=std::string::npos);'''),
dict(id='p24-short-vector',prop='P24',edits=[(G+'Util.cc','''      const DoubleVec v = p.getDoubleVals( dVKeys[i] ) ;
      for(unsigned int j=0 ; j < v.size() ; ++j ) {
''','''      const DoubleVec v = p.getDoubleVals( dVKeys[i] ) ;
      for(unsigned char j=0 ; j < v.size() && j < 0xff ; ++j ) {
''')],
 needs='a parameter with a vector of more than 255 values',what='only the first 255 values are printed',
 inc=MGR+'#include "gearimpl/GearParametersImpl.h"\n#include "gearimpl/Util.h"\n',demo='''using namespace gear; GearParametersImpl p; DoubleVec v(300,1.); v[299]=7.25; p.setDoubleVals("v",v); std::ostringstream s; s<<(const GearParameters&)p; CHECK(s.str().find("7.25")!=std::string::npos);'''),
dict(id='p24-material-precision',prop='P24',edits=[(G+'Util.cc','''      <<  std::showpos << std::scientific << std::setprecision(8) 
''','''      <<  std::showpos << std::setprecision(8) 
''')],
 needs='a material with a value beyond the fixed notation of a stream that is set to fixed format by the user',what='a small number is printed as zero when the stream is in fixed format',
 inc=MGR+'#include "gearimpl/SimpleMaterialImpl.h"\n#include "gearimpl/Util.h"\n#include <iomanip>\n',demo='''using namespace gear; SimpleMaterialImpl m("gas",1.5e-12,2.,3.,4.,5.); std::ostringstream s; s<<std::fixed<<(const SimpleMaterial&)m; CHECK(s.str().find("1.5000")!=std::string::npos && s.str().find("e-12")!=std::string::npos);'''),
]
