import json, subprocess
log = subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()
m = {'1d368cf':'C07','39e74ba':'C01','31663a4':'C04','73076c5':'C01','4abec61':'C01','731cf19':'C08','ccb771a':'C08','2f1648e':'C08','f7bfe12':'C09','8086e97':'C16','32cf4f8':'C16','432e938':'C16','2ac51f1':'C16','c0a286a':'C16','d8fb7ad':'C24','fb23a5c':'C12','119ee5a':'C27','dd785a2':'C27','372bc1d':'C14','fd1d0f4':'C19','ef33c84':'C09','e6c9503':'C18','3547f07':'C01','fc17ad0':'C06','0a0d93d':'C18','5bfd808':'C18','d2c413a':'C20', '6ef2235':'C27','8b211a2':'C23','f8e334d':'C22','5a7815a':'C22','bddf8ad':'C22','46c1259':'C16','7a1d459':'C10','83dca9c':'C08','1719f41':'C08','31c4a06':'C29','e074f43':'C29','0767bb7':'C28','27d67f6':'C28','c8fac3e':'C27','3a209ec':'C07','61978e3':'C27','4fb773f':'C08','946beff':'C19','7f9e3de':'C32'}
fixed=[]
for l in log:
    h,s=l.split(' ',1)
    if s.startswith('fix:'):
        fixed.append('fixed: property=%s %s %s'%(m[h],h,s[5:]))
I=['Input','default']; J=['Input','aux']
def net(inputs, layers): return {'T':1,'B':2,'seed':0,'inputs':inputs,'layers':layers}
def l(n,t,srcs,kw=None): return {'n':n,'t':t,'in':{'default':srcs},'kw':kw or {}}
f=[]
f.append({'property':'C05','id':'multi-source-concat','what':'inputs fed by several sources with more than one feature dimension are concatenated as flat features instead of along the last dimension (NoOp reading two (2,2,1) inputs)','spec':net({'default':[2,2,1],'aux':[2,2,1]},[l('p2','NoOp',[I,J])])})
f.append({'property':'C05','id':'multi-source-pooling','what':'Pooling2D writing to an input shared with another source of more than one feature dimension fails ("ndarray is not C-contiguous")','spec':net({'default':[4,4,1]},[l('p1','Pooling2D',[I],{'kernel_size':[2,2]}),l('p2','Pooling2D',[I],{'kernel_size':[2,2]}),l('f','FullyConnected',[['p1','default'],['p2','default']],{'size':2})])})
f.append({'property':'C05','id':'multi-source-batchnorm','what':'the output of BatchNorm on an input shared with another source of more than one feature dimension is lost','spec':net({'default':[4,4,2]},[l('p1','BatchNorm',[I]),l('p2','NoOp',[I]),l('f','FullyConnected',[['p1','default'],['p2','default']],{'size':2})])})
f.append({'property':'C21','id':'float32-argmax','what':'the gradient of max pooling goes to another pixel in single precision images of more than 2**24 values, because the position of the maximum is stored as a single precision number (image of 1 x 5600000 pixels with 3 channels)','spec':{'kind':'large','f32':True,'width':5600000,'C':3}})
f.append({'property':'C28','id':'mixed-context-sizes','what':'time steps of the context are mixed up for user-defined layers whose outputs have different context sizes and feed the same input (context sizes 1 and 2)','spec':{'bad':None,'inputs':[{'name':'default','shape':['T','B',1]}],'layers':[{'in':{},'interns':[],'n':'z0','outs':[{'ctx':1,'name':'default','shape':['T','B',1]}],'params':[],'t':'PbtNothing'},{'in':{},'interns':[],'n':'z1','outs':[{'ctx':2,'name':'p','shape':['T','B',1]}],'params':[],'t':'PbtNothing'},{'in':{'default':[['z0','default'],['z1','p']]},'interns':[],'n':'z3','outs':[],'params':[],'t':'PbtExtra'}],'sizes':[[1,1]],'training':False,'which':0}})
json.dump({'findings':f,'fixed':fixed},open('/verif/known_findings.json','w'),indent=1)
