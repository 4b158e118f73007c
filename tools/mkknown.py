import json,subprocess
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.split('\n')
props={'d559dfe':'P09','f40253f':'P10','cb26c3b':'P10','b0a5723':'P10','92e014c':'P24','99eddf4':'P09','2fe904c':'P08','a95bb38':'P08','349fb08':'P08','5c88bca':'P10','3827fbd':'P24','d4e00d7':'P01','c07dbe6':'P02','c84e8a9':'P01','df45cd7':'P20','bde7485':'P21','6479760':'P24','5676a95':'P05','eee7ddd':'P11','fb271c7':'P11','5cd68f5':'P11','a3090de':'P11','3a6a955':'P11','7f055ef':'P15','0430588':'P14','3ad04da':'P15','95ad09b':'P15','c05c57b':'P17','8f1658d':'P26','cca365b':'P19','9ba5a09':'P25','0a66b5a':'P22','6abe047':'P08','b7e596a':'P06','30013e2':'P06','170d5be':'P06','dd463ac':'P04','b7198fb':'P05','4d0e06a':'P06','40354bb':'P12','b04a67c':'P13','90ae93f':'P13','5135a21':'P14','35a1d93':'P18','fd5dc0e':'P18','8890977':'P23','8fa2c2d':'P24','0650a70':'P24','760ea3a':'P28','c11da0b':'P29','bb75c1d':'P08','407c2d4':'P25','bef5ba8':'P15','3efd8e8':'P10','91d64fb':'P02'}
fixed=[]
for l in log:
    if ' fix: ' in l:
        h,m=l.split(' fix: ',1)
        fixed.append('fixed: property=%s %s %s'%(props.get(h,'??'),h,m))
        if h not in props: print('missing',h,m)
d={'findings':[
 {'property':'P11','key':'ProbabilityLearner','what':'ProbabilityLearner.select never returns a selection: select_greedy is unfinished (shows a plot, opens the debugger, returns None)'},
 {'property':'P11','key':'AbsBayesInfo','what':'AbsBayesInfo.select never returns a selection: its integrand p_q_f_B_unorm is unfinished (opens the debugger inside the integration)'},
],'fixed':fixed}
json.dump(d,open('/verif/known_findings.json','w'),indent=1)
