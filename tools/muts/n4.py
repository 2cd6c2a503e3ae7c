FC='fit/fit_core.py'
src=open('/repo/misfit/fit/'+'fit_core.py').read(); cut=src.index("def _run_mcmc_emcee_3(")
def v3(old,new,n=1):
    """replace inside the emcee 3 function only"""
    tail=src[cut:]; assert tail.count(old)>=1,old
    a=tail.replace(old,new,n); return [(FC,tail,a)]
M=[
('u-burn1','C33',v3("pos = sampler_burn.run_mcmc(pos, 1)","pos = sampler_burn.run_mcmc(initial_pos, 1)")),
('u-start','C33',v3("            pos = sampler.run_mcmc(pos, 1)","            pos = sampler.run_mcmc(initial_pos if ii == 0 else pos, 1)")),
('u-af','C33',v3("(fitEmis2D.mcmcOptions.minAF < np.mean(sampler.acceptance_fraction) < fitEmis2D.mcmcOptions.maxAF)","(fitEmis2D.mcmcOptions.minAF < np.mean(sampler_burn.acceptance_fraction) < fitEmis2D.mcmcOptions.maxAF)")),
('u-minact','C33',v3("(ii > np.max(acor_time) * fitEmis2D.mcmcOptions.nEff)","(ii > np.min(acor_time) * fitEmis2D.mcmcOptions.nEff)")),
('u-force','C33',v3("                    if ii >= acor_force_min:","                    if ii > acor_force_min:")),
('u-runall','C33',v3("                    (not fitEmis2D.mcmcOptions.runAllSteps) & \\\n                    (ii","                    (ii")),
('u-dictburn','C33',v3("sampler_dict = fit_io.make_emcee_sampler_dict(sampler, fitEmis2D=fitEmis2D, nBurn=0)","sampler_dict = fit_io.make_emcee_sampler_dict(sampler, fitEmis2D=fitEmis2D, nBurn=1)")),
('u-noreset','C33',v3("        backend.reset(fitEmis2D.mcmcOptions.nWalkers, fitEmis2D.kinModel.n_free_param)","        pass")) if False else ('u-samename','C33',v3('name="mcmc"','name="burnin_mcmc"')),
('u-args','C33',v3("args=(fitEmis2D_fit,))","args=(fitEmis2D,))",2)),
('u-args2','C33',v3("                                    backend=backend, pool=pool, moves=moves,\n                                    args=(fitEmis2D_fit,))","                                    backend=backend, pool=pool, moves=moves,\n                                    args=(make_pruned_fitEmis2D_class(fitEmis2D),))")),
('u-moves','C33',v3("emcee.moves.StretchMove(a=fitEmis2D.mcmcOptions.scale_param_a)","emcee.moves.StretchMove()")),
('u-acornone','C33',v3("acor_time = sampler.get_autocorr_time(tol=10, quiet=True)","acor_time = sampler_burn.get_autocorr_time(tol=10, quiet=True)")),
('u-save-early','C33',v3("        if fitEmis2D.mcmcOptions.filename_sampler is not None:\n","        if (fitEmis2D.mcmcOptions.filename_sampler is not None) & (finishedSteps == fitEmis2D.mcmcOptions.nSteps):\n")),
('u-nothread','C33',v3("    if fitEmis2D.mcmcOptions.NoThread:\n        fitEmis2D.mcmcOptions.nCPUs = 1","    if fitEmis2D.mcmcOptions.NoThread & (fitEmis2D.mcmcOptions.nCPUs is None):\n        fitEmis2D.mcmcOptions.nCPUs = 1")),
('u-nburn','C33',v3("for k in range(fitEmis2D.mcmcOptions.nBurn):","for k in range(min(fitEmis2D.mcmcOptions.nBurn, fitEmis2D.mcmcOptions.nSteps)):")),
('u-steps','C33',v3("for ii in range(fitEmis2D.mcmcOptions.nSteps):","for ii in range(fitEmis2D.mcmcOptions.nSteps + 1):")),
('u-burn0','C33',v3("if fitEmis2D.mcmcOptions.nBurn > 0:","if fitEmis2D.mcmcOptions.nBurn > 1:")),
('u-acor-lag','C33',v3("(ii > np.max(acor_time) * fitEmis2D.mcmcOptions.nEff)","(ii > np.max(acor_time) + fitEmis2D.mcmcOptions.nEff)")),
('u-v2-reset','C33',[(FC,"            sampler.reset()\n","            pass\n")]),
('u-v2-state','C33',[(FC,"pos, prob, state = sampler.run_mcmc(pos_cur, 1, lnprob0=prob, rstate0=state)","pos, prob, state = sampler.run_mcmc(pos_cur, 1, lnprob0=prob)")]),
('ok-oneburn','C33',v3("pos = sampler_burn.run_mcmc(pos, 1)","step = sampler_burn.run_mcmc(pos, 1)\n                pos = step")),
('ok-conv','C33',v3("""                if ((fitEmis2D.mcmcOptions.minAF < np.mean(sampler.acceptance_fraction) < fitEmis2D.mcmcOptions.maxAF) & \\
                    (not fitEmis2D.mcmcOptions.runAllSteps) & \\
                    (ii > np.max(acor_time) * fitEmis2D.mcmcOptions.nEff) ):""","""                opts = fitEmis2D.mcmcOptions
                mean_af = np.mean(sampler.acceptance_fraction)
                if (opts.minAF < mean_af) and (mean_af < opts.maxAF) and (not opts.runAllSteps) \\
                        and (ii > np.max(acor_time) * opts.nEff):""")),
('ok-count','C33',v3("        for ii in range(fitEmis2D.mcmcOptions.nSteps):\n","        done = 0\n        for ii in range(fitEmis2D.mcmcOptions.nSteps):\n            done += 1\n")),
('ok-flag','C33',v3("                    if ii >= acor_force_min:\n","                    enough = ii >= acor_force_min\n                    if enough:\n")),
('ok-opts','C33',v3("    # --------------------------------\n    # Start pool, moves, backend:\n","    opts = fitEmis2D.mcmcOptions\n    nwalk = opts.nWalkers\n")),
('ok-burn-single','C33',v3("""            for k in range(fitEmis2D.mcmcOptions.nBurn):""","""            nBurn = fitEmis2D.mcmcOptions.nBurn
            for k in range(nBurn):""")),
]
