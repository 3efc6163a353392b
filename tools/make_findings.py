import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s','-70'],text=True).strip().split('\n')
h={}
for l in log:
    a,b=l.split(' ',1); h[b.replace('fix: ','')]=a
M=[("validate log-uniform and triangular distribution parameters",["C03"],"log-uniform and triangular parameters with lower bound <= 0, crossed bounds or zero width were accepted (NaN samples), and a triangular distribution ending at or below zero was rejected"),
("pad a copy of names and extend dists in fractional factorial sampling",["C21","C09"],"fractional factorial sampling appended its dummy names to the caller's list, and failed when padding a problem with declared distributions"),
("clip finite-difference steps to the support of the distribution",["C08"],"finite-difference steps of non-uniform distributions were clipped to the distribution parameters as if these were bounds"),
("honour seed=0 in all analyzers and any seed in hdmr",["C20"],"seed=0 was ignored by analyzers, and hdmr ignored its seed"),
("report the DGSM confidence interval on the scale of dgsm",["C30"],"dgsm_conf was not on the scale of dgsm"),
("zero Sobol indices and confidence widths for constant outputs",["C10"],"Sobol indices of a constant output were NaN"),
("label second order Sobol indices of one or two parameters",["C24"],"converting second order Sobol results of one or two parameters to a DataFrame failed"),
("keep the resamples of parallel Sobol analysis",["C22"],"keep_resamples failed or was lost with parallel Sobol analysis"),
("reject Morris outputs that are not whole trajectories",["C11"],"Morris outputs that were not whole trajectories were analysed"),
("PAWN slice edges for any number of slices",["C15"],"PAWN lost or merged slices for slice counts whose quantile step is not exact"),
("include the largest input values in the last PAWN slice",["C15"],"the largest inputs were in no PAWN slice"),
("ignore NaN outputs in PAWN as documented",["C15"],"NaN outputs made PAWN fail although documented as ignored"),
("average RSA results over the members of each group",["C16"],"RSA with groups failed or mixed up members"),
("RSA bin edges for any number of bins",["C16"],"RSA bins were wrong for bin counts whose quantile step is not exact"),
("name grouped discrepancy results after the groups",["C17","C24"],"grouped discrepancy results were named after the parameters"),
("report the notes of delta analysis when every parameter fails",["C13"],"notes were lost when every parameter failed"),
("merge an underpopulated last bin in balanced delta resampling",["C13"],"an underpopulated last bin was not merged"),
("zero ill-conditioned first order terms in HDMR",["C18"],"an ill-conditioned first order term kept stale coefficients"),
("degrees of freedom in the HDMR F-test",["C18"],"F-test of HDMR used wrong degrees of freedom"),
("confidence intervals of the sums of HDMR indices",["C18"],"confidence widths of summed indices were wrong"),
("count HDMR term selections per term",["C18"],"term selections were counted for the wrong terms"),
("HDMR emulation of new inputs",["C18"],"emulating new inputs did not evaluate the fitted functions"),
("keep the parameter names of a ProblemSpec analysed with HDMR",["C18","C23"],"names of the ProblemSpec were replaced"),
("leave the parameter names alone in enhanced HDMR",["C21"],"enhanced HDMR overwrote the caller's names"),
("first order enhanced HDMR",["C19"],"max_order=1 failed"),
("third order enhanced HDMR",["C19"],"third order terms were built from wrong columns"),
("confidence intervals of the sums of enhanced HDMR indices",["C19"],"confidence widths of summed indices were wrong"),
("print the total indices of the parameters in enhanced HDMR",["C19"],"printed total indices were misplaced"),
("enhanced HDMR emulation of new inputs",["C19"],"emulating new inputs did not evaluate the fitted functions"),
("centre integer outputs in enhanced HDMR",["C19"],"integer outputs were truncated when centred"),
("discard the analysis when samples or results are replaced",["C23"],"an analysis of old results survived replacing samples or results"),
("reject the analysis of a single group",["C23"],"the single-group check never rejected anything"),
("keep no partial analysis when the analysis of an output fails",["C23"],"a failed multi-output analysis left a partial one"),
("analyze a single output given as a column",["C23"],"a single output given as a column was mis-analysed"),
("evaluate no empty chunks in parallel",["C22"],"more processors than rows passed empty chunks to the model"),
("collect exactly the results returned by parallel workers",["C22"],"collected parallel results could have another shape or type than serial ones"),
("pass arguments on to distributed models and allow no servers",["C22"],"distributed evaluation dropped the arguments"),
("pad the groups along with the names in fractional factorial sampling",["C09","C23"],"groups were not padded along with the names"),
("pass positional arguments on to analysis functions",["C23"],"positional arguments of the chained analysis were dropped or misplaced"),
("bind the methods of a copied ProblemSpec to the copy",["C23"],"methods of a copied ProblemSpec acted on the original"),
("leave comments out when sniffing the format of parameter files",["C25"],"a comment could decide the delimiter"),
("default blank groups and distributions in parameter files",["C25"],"blank group or distribution fields were kept as empty names"),
("read parameter files with varying numbers of columns",["C25"],"rows with fewer columns than others failed"),
("honour --seed and --skip-values of the sobol sampling command",["C26"],"--seed and --skip-values of `salib sample sobol` were ignored"),
("accept False for the boolean options of the morris commands",["C26"],"--local False / --scaled False switched the option on"),
("default the optional settings of the pawn and rsa commands",["C26"],"leaving out --slices, --bins or --target crashed or gave nothing"),
("honour --seed of the hdmr and enhanced_hdmr commands",["C26"],"--seed was ignored"),
("reject confidence levels outside (0, 1) in fast and rbd_fast",["C30"],"confidence levels outside (0, 1) gave NaN or negative widths instead of an error"),
("Morris sample histograms for any number of parameters",["C32"],"histograms of Morris samples failed for one parameter or ten and more, and all used the number of levels of the second parameter"),
("plot mu_star against its confidence interval for Morris groups",["C32"],"the covariance plot of grouped Morris results showed no points (sigma is NaN for groups, not None)"),
("heatmaps label the indices they show, for all analysis methods",["C32"],"heatmaps failed for fast, rbd_fast, delta, ff and hdmr results, mislabelled rows after an index that cannot be shown, and put the colour bar in the current instead of the given figure"),
("plot RSA and HDMR results of several outputs",["C32"],"ProblemSpec.plot failed for RSA and HDMR results of several outputs"),
("plot fractional factorial results without interactions",["C32"],"plotting main-effect fractional factorial results failed"),
("plot HDMR results of more than ten bootstrap trials",["C32"],"plotting HDMR results with K > 10 failed unless K is a multiple of 10"),
("read the samples of one parameter as a column in analysis commands",["C26"],"samples of a single parameter could not be analysed by four commands"),
("reject group lists of another length than the parameters",["C27"],"group lists shorter or longer than the parameters gave samples with uninitialised columns (latin) or ungrouped parameters (saltelli, sobol)"),
("reject bounds of another length than the parameters with distributions",["C27"],"surplus bounds were accepted when distributions are declared"),
("reject inputs and outputs of different length in RBD-FAST and DGSM",["C27"],"RBD-FAST ignored surplus outputs and DGSM surplus inputs"),
("reject HDMR inputs with another number of columns than parameters",["C27"],"HDMR analysed samples with fewer columns than parameters, labelling the indices with wrong terms"),
("reject the analysis of results that do not match the samples",["C23"],"a model answering for fewer rows than samples was analysed silently"),
("accept the documented iteration limits of enhanced HDMR backfitting",["C19"],"max_iter below 100 or equal to 1000 was rejected"),
("stop enhanced HDMR backfitting after max_iter iterations",["C19"],"one more backfitting iteration than max_iter was done"),
("keep the methods of an analysis when its results are copied or pickled",["C24"],"a copied or pickled result lost its own to_df and plot (generic or failing DataFrames) or could not be pickled"),
("plot HDMR results after emulating inputs without observations",["C32"],"plotting an HDMR result after emulating without observations failed"),
("leave other figures open when plotting HDMR results",["C36","C32"],"plotting HDMR results closed all other open figures of the caller"),
("let enhanced HDMR emulators be pickled",["C24"],"enhanced HDMR results could not be pickled"),
("leave the caller's warning filters and format alone in delta analysis",["C36"],"delta analysis replaced warnings.formatwarning and added warning filters for the whole process"),
("reject outputs of more than one dimension in fast, rbd_fast and delta",["C27"],"outputs in several columns were analysed as if flat, giving wrong indices"),
("enhanced HDMR pseudo-inverse kept singular values below the rank tolerance",["C19"],"about one extended-base fit in a thousand took rounding noise for singular values and returned wrong indices"),
("print every row and column of the indices",["C24","C26"],"reports of more than 60 rows or wider than the terminal were printed with rows, columns and long names left out"),
]
out=[];used=set()
for s,ps,w in M:
    assert s in h,s
    used.add(s)
    for p in ps: out.append({"property":p,"status":"fixed","mech":"fixed","what":f"fixed: property={p} {h[s]} {w}"})
print([s for s in h if s not in used])
import os
old=json.load(open('/verif/known_findings.json'))['findings']
out+= [e for e in old if e['status']!='fixed']
with open('/verif/known_findings.json','w') as f:
    f.write('{"findings": [\n'+',\n'.join(' '+json.dumps(e,ensure_ascii=False) for e in out)+'\n]}\n')
