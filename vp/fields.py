"""Settings of a configuration, their kind (s scalar, a array, l list) and default."""
FIELDS = {
    'galfile': ('s', None), 'zredfile': ('s', None), 'halofile': ('s', None), 'randfile': ('s', None), 'catfile': ('s', None),
    'specfile': ('s', None), 'specfile_train': ('s', None), 'outbase': ('s', None), 'parfile': ('s', None), 'bkgfile': ('s', None),
    'bkgfile_color': ('s', None), 'zlambdafile': ('s', None), 'maskfile': ('s', None), 'depthfile': ('s', None), 'wcenfile': ('s', None),
    'redgalfile': ('s', None), 'redgalmodelfile': ('s', None), 'seedfile': ('s', None), 'zmemfile': ('s', None), 'redmagicfile': ('s', None),
    'calib_nproc': ('s', 1), 'calib_run_nproc': ('s', 1), 'calib_run_min_nside': ('s', 1), 'runcat_percolation_masking': ('s', True),
    'outpath': ('s', './'), 'plotpath': ('s', ''), 'logpath': ('s', 'logs'), 'border': ('s', 0.0), 'hpix': ('a', []), 'nside': ('s', 0),
    'galfile_pixelized': ('s', None), 'use_tempfiles_to_conserve_memory': ('s', True), 'printlogging': ('s', True), 'nmag': ('s', None),
    'area': ('s', None), 'limmag_catalog': ('s', None), 'limmag_ref': ('s', None), 'refmag': ('s', None), 'ref_ind': ('s', None),
    'zeropoint': ('s', None), 'survey_mode': ('s', None), 'b': ('a', None), 'galfile_nside': ('s', None), 'bands': ('s', None),
    'has_truth': ('s', False), 'galfile_has_truth': ('s', False), 'galfile_has_zspec': ('s', False), 'area_finebin': ('s', 0.001),
    'area_coarsebin': ('s', 0.005), 'area_nodesize': ('s', 0.05), 'zrange': ('a', None), 'lval_reference': ('s', 0.2),
    'maskgalfile': ('s', 'maskgals.fit'), 'mask_mode': ('s', 0), 'max_maskfrac': ('s', 0.2), 'covmask_nside_default': ('s', 32),
    'maskgal_ngals': ('s', 6000), 'maskgal_nsamples': ('s', 100), 'maskgal_rad_stepsize': ('s', 0.1), 'maskgal_dmag_extra': ('s', 0.3),
    'maskgal_zred_err': ('s', 0.02), 'dldr_gamma': ('s', 0.6), 'rsig': ('s', 0.05), 'chisq_max': ('s', 20.0), 'npzbins': ('s', 21),
    'zred_nsamp': ('s', 4), 'mstar_survey': ('s', 'sdss'), 'mstar_band': ('s', 'i03'), 'calib_niter': ('s', 3), 'calib_zrange_cushion': ('s', 0.05),
    'calib_use_pcol': ('s', True), 'calib_smooth': ('s', 0.003), 'calib_minlambda': ('s', 5.0), 'calib_redgal_template': ('s', None),
    'calib_pivotmag_nodesize': ('s', 0.1), 'calib_color_nodesizes': ('a', [0.05]), 'calib_slope_nodesizes': ('a', [0.1]),
    'calib_color_maxnodes': ('a', [-1.0]), 'calib_covmat_maxnodes': ('a', [-1.0]), 'calib_covmat_nodesize': ('s', 0.15),
    'calib_covmat_constant': ('s', 0.9), 'calib_corr_nodesize': ('s', 0.05), 'calib_corr_slope_nodesize': ('s', 0.1),
    'calib_corr_nocorrslope': ('s', True), 'calib_corr_pcut': ('s', 0.9), 'calib_fit_err_ratio': ('s', False), 'calib_err_ratio_pivot': ('s', 20.0),
    'calib_spec_max_zerr': ('s', 0.001), 'calib_color_nsig': ('s', 1.5), 'calib_redspec_nsig': ('s', 2.0), 'calib_colormem_r0': ('s', 0.5),
    'calib_colormem_beta': ('s', 0.0), 'calib_colormem_smooth': ('s', 0.003), 'calib_colormem_minlambda': ('s', 10.0),
    'calib_colormem_zbounds': ('a', [0.4]), 'calib_colormem_colormodes': ('a', [1, 2]), 'calib_colormem_sigint': ('a', [0.05, 0.03]),
    'calib_pcut': ('s', 0.3), 'calib_color_pcut': ('s', 0.7), 'calib_zlambda_nodesize': ('s', 0.04), 'calib_zlambda_slope_nodesize': ('s', 0.1),
    'calib_zlambda_minlambda': ('s', 20.0), 'calib_zlambda_clean_nsig': ('s', 5.0), 'calib_zlambda_correct_niter': ('s', 3),
    'calib_lumfunc_alpha': ('s', -1.0), 'zredc_binsize_fine': ('s', 0.0001), 'zredc_binsize_coarse': ('s', 0.005), 'bkg_chisqbinsize': ('s', 0.5),
    'bkg_refmagbinsize': ('s', 0.2), 'bkg_zbinsize': ('s', 0.02), 'bkg_zredbinsize': ('s', 0.01), 'bkg_deepmode': ('s', False),
    'calib_make_full_bkg': ('s', True), 'bkg_local_annuli': ('a', [2.0, 3.0]), 'bkg_local_compute': ('s', False), 'bkg_local_use': ('s', False),
    'zlambda_pivot': ('s', 30.0), 'zlambda_binsize': ('s', 0.002), 'zlambda_maxiter': ('s', 20), 'zlambda_tol': ('s', 0.0002),
    'zlambda_topfrac': ('s', 0.7), 'zlambda_epsilon': ('s', 0.005), 'zlambda_parab_step': ('s', 0.001), 'centerclass': ('s', 'CenteringBCG'),
    'centering_use_zspec': ('s', False), 'wcen_rsoft': ('s', 0.05), 'wcen_zred_chisq_max': ('s', 100.0), 'wcen_minlambda': ('s', 10.0),
    'wcen_maxlambda': ('s', 100.0), 'wcen_cal_zrange': ('a', [0.0, 1.0]), 'wcen_pivot': ('s', 30.0), 'wcen_uselum': ('s', True),
    'wcen_Delta0': ('s', 0.0), 'wcen_Delta1': ('s', 0.0), 'wcen_sigma_m': ('s', 0.0), 'lnw_cen_sigma': ('s', -9999.0), 'lnw_cen_mean': ('s', -9999.0),
    'lnw_sat_sigma': ('s', -9999.0), 'lnw_sat_mean': ('s', -9999.0), 'lnw_fg_sigma': ('s', -9999.0), 'lnw_fg_mean': ('s', -9999.0),
    'phi1_mmstar_m': ('s', -9999.0), 'phi1_mmstar_slope': ('s', -9999.0), 'phi1_msig_m': ('s', -9999.0), 'phi1_msig_slope': ('s', -9999.0),
    'firstpass_r0': ('s', 0.5), 'firstpass_beta': ('s', 0.0), 'firstpass_niter': ('s', 2), 'firstpass_minlambda': ('s', 3.0),
    'firstpass_centerclass': ('s', 'CenteringBCG'), 'likelihoods_r0': ('s', 1.0), 'likelihoods_beta': ('s', 0.2), 'likelihoods_use_zred': ('s', True),
    'likelihoods_minlambda': ('s', 3.0), 'percolation_r0': ('s', 1.0), 'percolation_beta': ('s', 0.2), 'percolation_rmask_0': ('s', 1.5),
    'percolation_rmask_beta': ('s', 0.2), 'percolation_rmask_gamma': ('s', 0.0), 'percolation_rmask_zpivot': ('s', 0.3),
    'percolation_lmask': ('s', None), 'percolation_niter': ('s', 2), 'percolation_minlambda': ('s', 3.0), 'percolation_pbcg_cut': ('s', 0.5),
    'percolation_maxcen': ('s', 5), 'percolation_memradius': ('s', None), 'percolation_memlum': ('s', None), 'zscan_r0': ('s', 0.5),
    'zscan_beta': ('s', 0.0), 'zscan_zstep': ('s', 0.005), 'zscan_minlambda': ('s', 3.0), 'vlim_lstar': ('s', 0.2), 'vlim_depthfiles': ('l', []),
    'vlim_bands': ('l', []), 'vlim_nsigs': ('a', []), 'consolidate_lambda_cuts': ('a', [5.0, 20.0]), 'consolidate_vlim_lstars': ('l', [0.2, 5.0]),
    'select_scaleval': ('s', False), 'redmagic_calib_nodesize': ('s', 0.05), 'redmagic_calib_corr_nodesize': ('s', 0.05),
    'redmagic_calib_buffer': ('s', 0.05), 'redmagic_calib_zbinsize': ('s', 0.02), 'redmagic_calib_chisqcut': ('s', 20.0),
    'redmagic_zrange': ('a', []), 'redmagic_calib_fractrain': ('s', 0.5), 'redmagic_calib_redshift_buffer': ('s', 0.05),
    'redmagic_maxlum': ('s', 100.0), 'redmagic_mock_truthspec': ('s', False), 'redmagic_run_afterburner': ('s', True),
    'redmagic_apply_afterburner_zsamp': ('s', True), 'redmagic_n0s': ('a', []), 'redmagic_etas': ('a', []), 'redmagic_names': ('l', []),
    'redmagic_zmaxes': ('a', []), 'redmagic_constchis': ('a', []), 'redmagic_use_constchi': ('s', False),
}
