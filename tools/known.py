"""Regenerate known_findings.json (run by hand after each fix: commit)."""
import json,subprocess
M={'15b0d36':('C01','casting a history to a single state took the first instead of the most recent state'),
'dc372ee':('C02','stepping a domain with unbounded or length-1 history failed; a set history lost its bound'),
'c0f805c':('C03','EmptySpace.contains raised instead of answering'),
'1699371':('C06','rollout_episode used an unreset domain memory when no start was given'),
'24957d1':('C06','rollout_episode stepped from partial observations as if they were memory'),
'5c48134':('C06','rollout with a save function stopped after the first episode'),
'54bc6e1':('C07','shared-memory results of the same type overwrote each other'),
'02d9032':('C07','a failing shared-memory job returned stale arguments as its result'),
'156bfd8':('C07','a job that could not be launched kept its worker busy for ever'),
'f974172':('C07','ParallelSolver.get_domain returned None before any solve'),
'1978138':('S01','LazyAstar failed when solving from a goal state'),
'4b12ba1':('S02','LRTAstar failed from a goal state and reported policies undefined where defined'),
'13c2c09':('S03','SimpleGreedy ignored values that do not depend on the next state'),
'3bb9f97':('S03','POMCP observed the wrong state and could return inapplicable actions'),
'b50c398':('S05','graph domains lacked single-agent/Markovian characteristics and distributions'),
'6d1bde0':('S05','graph explorations dropped transitions and failed without limits'),
'fb235f8':('S06','np.int does not exist: CGP evolution failed'),
'cbbb07c':('S06','CGP mutation produced non feed-forward genomes; clones lost the recurrency distance'),
'3f53711':('S06','CGP accepted domains with unsupported parts of tuple spaces'),
'447cf0d':('H01','MasterMind observation space excluded full scores'),
'5b06b65':('H02','data spaces rejected their own members'),
'c38714f':('H03','interval features failed on discrete and dictionary spaces'),
'7f70f48':('H03','binary features had the wrong count and failed on dictionary spaces'),
'0f942c5':('H03','elliptical features failed on tuple and dictionary spaces'),
'93f71ee':('H03','only the first dimension of multi-dimensional actions was discretised'),
'87bf4a5':('H03','multi-discrete observations could not be compared'),
'4090b2a':('H03','AsGymEnv.reset returned wrapped observations outside of the observation space'),
'35f40c0':('D02','tasks could not be started in all their feasible modes; needs taken at a wrong time'),
'65edd9a':('D01','zero-duration tasks never released their renewable resources'),
'25879f4':('D03','varying consumption updated for completed tasks / shared between outcomes'),
'9fb2a89':('D03','cost of non-renewable resources used the wrong entry; renewables not priced per elapsed time'),
'b79fb71':('D02','equal scheduling actions compared different'),
'b94952b':('D04','a task declared Restart kept its progress'),
'2cd3456':('D04','paused tasks resumed without the resources of their mode'),
'be3b510':('D04','pausing did not return non-renewable resources as declared'),
'4405bab':('D04','task without declared resuming type raised KeyError'),
'd893af7':('D03','outcomes of completion conditions lost probability / conditions'),
'027c9a5':('D01','conditional tasks added late or never'),
'03affc7':('D01','an in-place environment started its second episode from the mutated initial state'),
'b8725a5':('D01','Stochastic_RCPSP dropped non-renewable resources'),
'090dfea':('D01','SMRCPSPCalendar original availability was a list'),
'0eab341':('O12','adding to an empty result storage failed; best multi-objective solution could be dominated'),
'67af965':('O12','last/random best multi-objective solution could be dominated'),
'd3db27b':('O12','super Pareto front of minimisation results was computed in the maximisation direction'),
'70f7b1d':('O11','local search stored solutions altered by later moves, and minimisation results as maximisation'),
'84760ba':('O01','RCPSP solutions kept an obsolete schedule when copied after a modification or when modes changed'),
'7a99ab4':('O02','satisfy judged the obsolete schedule of a modified solution'),
'ab67933':('O01','infeasible schedules scored as feasible depending on the order of successors'),
'e6e24ec':('O01','calendars were consumed by scheduling (arrays) or could not be scored (lists)'),
'648132b':('O02','mean resource reserve counted consumed non-renewable resources as available again'),
'27d8339':('O01','non-renewable needs of zero-duration activities were ignored'),
'902692c':('O03','partial rescheduling moved running tasks and gave back consumed non-renewable resources'),
'e69fb94':('O10','swap mutation never moved the last element and failed on one element'),
'd48da46':('O10','undoing several swaps did not restore the permutation'),
'59812e1':('O10','partial shuffle modified the permutation of the original'),
'33eb945':('O10','2-opt mutation failed on permutations of one element'),
'9f7ab97':('O10','bit-flipped solutions were not told that they were modified'),
'e27ae9a':('O08','knapsack solutions kept obsolete value and weight after a change'),
'97350ec':('O08','equal knapsack solutions had different hashes'),
'0ff3163':('O08','multi-objective knapsack had no objective register'),
'58f7da1':('O10','knapsack mutations reported the score of the previous solution'),
'a9bf5d3':('O10','knapsack mutation divided by zero with items without weight or value'),
'd9ebc80':('O11','genetic mutation of integers produced values out of range'),
'dc79360':('O11','genetic algorithm failed without objectives / with small populations; ignored the weight'),
'0bcd2ef':('O11','genetic algorithms returned another solution than the one evaluated (modes)'),
'2fbdc43':('O11','alternating genetic algorithm never alternated and returned the last solution'),
}
# the others: property only, the text is the subject of the commit
Q={
'd4ff95d':'O06','72458fd':'O07','1c33d85':'O06','2c0c364':'O06','ec71893':'O06','6fd8662':'O02','f94a2a0':'O02','bb998c4':'O06',
'f0df08e':'O06','ebab6dc':'O06','a0f6505':'O08','8e2eb05':'O08','54a5199':'O08','b5e2362':'O08','2f4b6dd':'O08','32db058':'O07',
'd1b959c':'O09','b900da9':'O09','ea3d33c':'O10','819bd4d':'O10','bfa3b29':'O10','eca31ea':'O08','9c32cbf':'O08','5b099c1':'O08','56b2081':'O08',
'6fdb112':'O12',
'e70320e':'O12',
'f8fdd9d':'O01',
'd217baf':'O02',
'0ad6305':'O10',
'9746db2':'O11',
'9844f86':'O11',
'5c912f0':'O11',
'1d17336':'O06',
'2073042':'O06',
'b5f22de':'O06',
'3852f85':'O05',
'408de3d':'O05',
'7b52f28':'O05',
'34a4e14':'O05',
'8b67f81':'D09',
'ee75ce0':'D09',
'c007c5b':'O09',
'557bbd9':'O09',
'e02232c':'O09',
'4046e6d':'O09',
'8cba0cb':'O09',
'c9cda97':'O09',
'1d5c262':'O09',
'59b3049':'O09',
'c46e961':'O09',
'aa35579':'O09',
'c07e4e6':'O14',
'fae9207':'O14',
'92b3f7b':'O14',
'91f4cc5':'O14',
'd90b7ba':'O14',
'1087056':'O14',
'4d2a526':'O14',
'1ec8d06':'O15',
'01be7da':'O15',
'e508d08':'O15',
'064ab85':'O05',
'abe2314':'O16',
'bdd4029':'O16',
'4235ad7':'O16',
'feaf788':'O16',
'11dedd9':'O17',
'81b006f':'O17',
'18e62f2':'O17',
'fa6594b':'O17',
'c081b6b':'O17',
'c4db245':'O17',
'38984f1':'C06',
'fccc692':'O14',
'ae2cc86':'D07',
'7158f33':'D07',
'34debc2':'S04',
'86188cd':'O18',
'9e2b36c':'O18',
'ee780d6':'O18',
'aa96b91':'O18',
'58492c4':'O18',
'593fa6b':'P01',
'4c5e079':'P05',
'd4c43e7':'P02',
'5ac0d88':'P02',
'151fb91':'P03',
'98c29e5':'P03',
'0c79fe1':'P03',
'2a51225':'P04',
'd73e71c':'P04',
'63961ce':'P04',
'cc02045':'P04',
'bc0fc7d':'P06',
'97ddfde':'P06',
'9c85f09':'P06',
'442b7a7':'P06',
'9ca23c3':'P06',
'3c5cfbb':'P07',
'a444f02':'P07',
'0542c0f':'P08',
'3677712':'P08',
'8850387':'P08',
'c8874f2':'P09',
'f7aee1d':'C06',
'1c0c493':'O15',
}
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s','--reverse'],text=True).splitlines()]
out=[]
for h,t in log:
    if t.startswith('fix: '):
        k=[x for x in M if h.startswith(x) or x.startswith(h)]
        q=[x for x in Q if h.startswith(x) or x.startswith(h)]
        if k: out.append("fixed: property=%s %s %s"%(M[k[0]][0],h,M[k[0]][1]))
        elif q: out.append("fixed: property=%s %s %s"%(Q[q[0]],h,t[5:]))
        else: print('missing',h,t)
json.dump({"findings":[],"fixed":out},open('/verif/known_findings.json','w'),indent=1)
print(len(out))
