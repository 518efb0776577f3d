#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py OUT.jsonl [--workers N] [--per-file N] [--files regex] [--seed N]
Runs in scratch copies of /repo and /verif under /tmp/mut; survivors show where a check is blind (or the mutant is equivalent)."""
import sys, os, re, random, subprocess, json, shutil, argparse, multiprocessing as mp, time
MAP={'GearMgrImpl.cc':'P02','GearParametersImpl.cc':'P01','LayerLayoutImpl.cc':'P20','CalorimeterParametersImpl.cc':'P20 P16',
'TPCParametersImpl.cc':'P15 P16','TPCModuleImpl.cc':'P14 P13 P16','RectangularPadRowLayout.cc':'P10 P11 P12 P13 P16','VersatileDiskRowLayout.cc':'P10 P11 P12 P13 P16',
'FixedPadSizeDiskLayout.cc':'P10 P11 P12 P13 P16 P07','FixedPadAngleDiskLayout.cc':'P10 P11 P12 P13 P16 P07','FixedDiskLayoutBase.cc':'P13 P12',
'Util.cc':'P24','ZPlanarParametersImpl.cc':'P17 P18 P16','ZPlanarLayerLayout.cc':'P17 P18 P16 P04','FTDParametersImpl.cc':'P19 P16 P04','FTDLayerLayoutImpl.cc':'P19 P16',
'SiPlanesLayerLayout.cc':'P21','SiPlanesParametersImpl.cc':'P21 P16','TrackerPlanesLayerLayout.cc':'P21','TrackerPlanesParametersImpl.cc':'P21 P16','Vector3D.cc':'P22','GlobalPadIndex.cc':'P15',
'SimpleMaterialImpl.cc':'P03','ConstantBField.cc':'P03','CartesianCoordinateSystem.cc':'P23','BoundaryTrapezoid.cc':'P23','BoundaryRectangle.cc':'P23','MeasurementSurface.cc':'P23','MeasurementSurfaceStore.cc':'P23',
'GearXML.cc':'P03 P04 P05 P06 P07','CalorimeterParametersXML.cc':'P03 P06 P07','SimpleMaterialXML.cc':'P03 P06','ConstantBFieldXML.cc':'P03 P06','GearParametersXML.cc':'P03 P06',
'ZPlanarParametersXML.cc':'P04 P06','FTDParametersXML.cc':'P04 P06','SiPlanesParametersXML.cc':'P04 P06','TrackerPlanesParametersXML.cc':'P04 P06',
'TPCParametersXML.cc':'P05 P06 P07','TPCModuleXML.cc':'P05 P06 P07','PadRowLayout2DXML.cc':'P05 P06','FixedPadAngleDiskLayoutXML.cc':'P05 P06','FixedPadSizeDiskLayoutXML.cc':'P05 P06','VersatileDiskRowLayoutXML.cc':'P05 P06','RectangularPadRowLayoutXML.cc':'P05 P06',
'XMLHandlerMgr.cc':'P06 P07','MergeXML.cc':'P09','tinyxml.cc':'P08 P07 P09','tinyxmlparser.cc':'P08 P06 P07','tinyxmlerror.cc':'P08','tinystr.cc':'P08',
'MaterialMap.cc':'P25','MaterialMapFactory.cc':'P25','TGeoGearDistanceProperties.cc':'P26','TGeoGearPointProperties.cc':'P26','TGeoGeometryInitializer.cc':'P26','TGeoMaterialProperties.cc':'P26'}
MAP.update({'CGAGearDistanceProperties.cc':'P28','CGAGearPointProperties.cc':'P28','CGAGeometryInitializer.cc':'P28','XMLHandlerMgr.cc':'P27 P06 P07',
'Vector3D.h':'P22','GearMgrImpl.h':'P02','GearParametersImpl.h':'P01','LayerLayoutImpl.h':'P20','CalorimeterParametersImpl.h':'P20 P16','ConstantBField.h':'P03 P16','SimpleMaterialImpl.h':'P03 P16',
'SiPlanesLayerLayoutImpl.h':'P21','TrackerPlanesLayerLayoutImpl.h':'P21','SiPlanesParametersImpl.h':'P21 P04','TrackerPlanesParametersImpl.h':'P21 P04','ZPlanarLayerLayoutImpl.h':'P17 P04','ZPlanarParametersImpl.h':'P17 P04',
'FTDLayerLayoutImpl.h':'P19 P04','FTDParametersImpl.h':'P19 P04','TPCModuleImpl.h':'P14 P13 P05','TPCParametersImpl.h':'P15 P05','RectangularPadRowLayout.h':'P10 P11 P05','VersatileDiskRowLayout.h':'P10 P11 P05','FixedPadSizeDiskLayout.h':'P10 P11 P05','FixedPadAngleDiskLayout.h':'P10 P11 P05',
'FixedDiskLayoutBase.h':'P13','GlobalPadIndex.h':'P15','tinyxml.h':'P08 P07 P09','MaterialMap.h':'P25','BoundaryRectangle.h':'P23','BoundaryTrapezoid.h':'P23','CartesianCoordinateSystem.h':'P23','MeasurementSurfaceStore.h':'P23','MeasurementSurface.h':'P23','XMLHandlerMgr.h':'P27','GEAR.h':'P02 P27'})
def code_lines(t):
    """(index,line) of lines that are code: comments blanked"""
    out=[]; inb=False
    for i,l in enumerate(t.split('\n')):
        s=l
        if inb:
            if '*/' in s: s=' '*(s.index('*/')+2)+s[s.index('*/')+2:]; inb=False
            else: continue
        s=re.sub(r'/\*.*?\*/',lambda m:' '*len(m.group()),s)
        if '/*' in s: s=s[:s.index('/*')]; inb=True
        q=re.sub(r'"(\\.|[^"\\])*"',lambda m:'"'+'_'*(len(m.group())-2)+'"',s)
        q=re.sub(r"'(\\.|[^'\\])'",lambda m:"'"+'_'*(len(m.group())-2)+"'",q)
        if '//' in q: q=q[:q.index('//')]
        if q.strip() and not q.strip().startswith('#'): out.append((i,q))
    return out
OPS=[(r'<=','<'),(r'>=','>'),(r'(?<![<\-])\s<\s(?!<)',' <= '),(r'(?<![>\-])\s>\s(?!>)',' >= '),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),
 (r' \+ ',' - '),(r' - ',' + '),(r'(?<=[\w\)\]])\s*\*\s*(?=[\w\(])(?!\s*(const|this)\b)',' / '),(r' / ',' * '),(r'\b0\.5\b','0.45'),(r'\.5\b','.45'),(r'M_PI','3.14'),
 (r'\[\s*0\s*\]','[1]'),(r'\[\s*1\s*\]','[0]'),(r'\[\s*2\s*\]','[3]'),(r'\[\s*3\s*\]','[2]'),(r'\bsin\b','cos'),(r'\bcos\b','sin'),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'\+=','-='),(r'-=','+='),(r'\bif\s*\(','if( false && '),(r'\bif\s*\(','if( true || '),(r'- *1\b','- 0'),(r'\+ *1\b','+ 0'),(r'\bbreak\b',''),(r'\bcontinue\b',''),(r'\bX\b','Y'),(r'\( *layerIndex *\)','( 0 )'),(r'X\b','Y'),(r'Y\b','X'),(r'(?<=return )_(\w+) ?;','0*_\\1+1;'),
 (r'(?<=[\w ])Min\b','Max'),(r'(?<=[\w ])Max\b','Min'),(r'"(?=[^"]{2,}")','"Z')]
def mutants(path,rnd):
    t=open(path,encoding='latin-1').read(); L=t.split('\n'); out=[]
    for i,q in code_lines(t):
        if re.search(r'std::c(out|err)',q): continue
        for pat,rep in OPS:
            for m in re.finditer(pat,q):
                if pat.startswith('"') : continue
                nl=L[i][:m.start()]+(m.expand(rep) if '\\1' in rep else rep)+L[i][m.end():]
                out.append((i,L[i],nl,pat))
        if re.match(r'^\s*[\w\->.\[\]() ]+\s*(=|\+=|-=)[^=].*;\s*$',q) and not re.match(r'^\s*(const|int|double|float|bool|std|unsigned|char|return|Tixml|TiXml|auto|static|Vector|Row|typedef|size_t|long|DoubleVec|IntVec|StringVec|CLHEP|gear)\b',q):
            out.append((i,L[i],'/* deleted */;','stmt'))
        elif re.match(r'^\s*[\w.>\-]+\(.*\)\s*;\s*$',q) and not re.match(r'^\s*(throw|return|delete)\b',q):
            out.append((i,L[i],'/* deleted */;','call'))
        elif re.match(r'^\s*(delete|throw|return)\b.*;\s*$',q) and 'return' not in q:
            out.append((i,L[i],'/* deleted */;','stmt'))
    out=[o for o in out if o[1]!=o[2]]
    rnd.shuffle(out); return out
def worker(n,q,outf,lock,scale):
    d=f'/tmp/mut/w{n}'; os.makedirs(d,exist_ok=True)
    subprocess.run(f'rm -rf {d}/repo {d}/verif; mkdir -p {d}/repo {d}/verif; cp -a /repo/src /repo/include /repo/CMakeLists.txt /repo/cmake {d}/repo/; cp -a /verif/harness /verif/*.py /verif/known_findings.txt {d}/verif/',shell=True)
    env=dict(os.environ,GEAR_REPO=d+'/repo',GEAR_VERIF_BUILD=d+'/build',PBT_SHRINK_S='0.2')
    while True:
        m=q.get()
        if m is None: return
        rel,i,old,new,pat,checks=m
        p=f'{d}/repo/{rel}'; t=open(p,encoding='latin-1').read(); L=t.split('\n'); L[i]=new; open(p,'w',encoding='latin-1').write('\n'.join(L))
        res='SURVIVED'; t0=time.time()
        try:
            for c in checks:
                r=subprocess.run(['python3','run.py',c,'--jobs','1','--scale',str(scale)],cwd=d+'/verif',env=env,capture_output=True,text=True,timeout=400)
                if r.returncode==1: res='killed '+c; break
                if r.returncode!=0:
                    res='noanswer '+c+(' build' if 'build of the' in r.stdout else r.stdout[-300:]); break
        except subprocess.TimeoutExpired: res='timeout'; subprocess.run(['pkill','-9','-f',d+'/build'])
        open(p,'w',encoding='latin-1').write(t)
        with lock:
            with open(outf,'a') as f: f.write(json.dumps({'res':res,'file':rel,'line':i+1,'old':old.strip(),'new':new.strip(),'pat':pat,'s':round(time.time()-t0)})+'\n')
def main():
    a=argparse.ArgumentParser(); a.add_argument('out'); a.add_argument('--workers',type=int,default=6); a.add_argument('--per-file',type=int,default=30)
    a.add_argument('--files',default='.'); a.add_argument('--seed',type=int,default=1); a.add_argument('--scale',type=float,default=0.5); a.add_argument('--count',action='store_true')
    a=a.parse_args(); rnd=random.Random(a.seed); todo=[]
    for f,c in MAP.items():
        if not re.search(a.files,f): continue
        path=None
        for d in ('gearimpl','gearxml','gearsurf','geartgeo','gearcga'):
            if os.path.exists(f'/repo/include/gear/{d}/{f}'): path=f'include/gear/{d}/{f}'
        if f=='GEAR.h': path='include/gear/GEAR.h'
        for d in ('gearimpl','gearxml','gearsurf','geartgeo','gearcga'):
            if os.path.exists(f'/repo/src/{d}/{f}'): path=f'src/{d}/{f}'
        if not path: continue
        ms=mutants('/repo/'+path,rnd)
        if a.count: print(f,len(ms)); continue
        todo+=[(path,)+m+(c.split(),) for m in ms[:a.per_file]]
    if a.count: return
    rnd.shuffle(todo)
    done=set()
    if os.path.exists(a.out): done={(d['file'],d['line'],d['new']) for d in map(json.loads,open(a.out))}
    todo=[t for t in todo if (t[0],t[1]+1,t[3].strip()) not in done]; print(len(todo),'to do',flush=True)
    q=mp.Queue(); lock=mp.Lock(); ps=[mp.Process(target=worker,args=(n,q,a.out,lock,a.scale)) for n in range(a.workers)]
    for t in todo: q.put(t)
    for _ in ps: q.put(None)
    [p.start() for p in ps]; [p.join() for p in ps]
main()
