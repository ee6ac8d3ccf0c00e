RT_MODULES = ['rt_io', 'rt_grid', 'rt_iface', 'rt_series']
PF_MODULES = ['pf_series', 'pf_grid', 'pf_avg', 'pf_sample', 'pf_files', 'pf_view', 'pf_iface', 'pf_search', 'pf_runs', 'pf_spread', 'pf_average', 'pf_curves', 'pf_io']
