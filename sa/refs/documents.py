"""Document types, the keys each accepts and the loader each reference in them goes through.  Read against the
documentation; a tree may accept more, never less."""

PARAMETER = {
    'AggregatedIndexParameter': ('agg_func comment is_variable name parameters tags',
        {'parameters': ['load_parameter']}),
    'AggregatedParameter': ('agg_func comment is_variable name parameters tags',
        {'parameters': ['load_parameter']}),
    'AnnualExponentialLicense': ('amount comment is_variable k max_value name node tags',
        {'node': ['nodes']}),
    'AnnualHarmonicSeriesParameter': ('amplitude_lower_bounds amplitude_upper_bounds amplitudes comment is_variable mean mean_lower_bounds mean_upper_bounds name phase_lower_bounds phase_upper_bounds phases tags',
        {}),
    'AnnualHyperbolaLicense': ('amount comment is_variable name node tags value',
        {'node': ['nodes']}),
    'AnnualLicense': ('amount comment is_variable name node tags',
        {'node': ['nodes']}),
    'ArrayIndexedParameter': ('comment is_variable name scenario tags url values',
        {'*': ['load_parameter_values'], 'scenario': ['scenarios']}),
    'ArrayIndexedScenarioMonthlyFactorsParameter': ('comment factors is_variable name scenario tags values',
        {'factors': ['load_parameter_values'], 'scenario': ['scenarios'], 'values': ['load_parameter_values']}),
    'ArrayIndexedScenarioParameter': ('comment is_variable name scenario tags url values',
        {'*': ['load_parameter_values'], 'scenario': ['scenarios']}),
    'BinaryStepParameter': ('comment is_variable lower_bounds name output tags upper_bounds value',
        {}),
    'ConstantParameter': ('comment is_variable lower_bounds name offset scale tags upper_bounds value',
        {'*': ['load_parameter_values']}),
    'ConstantScenarioIndexParameter': ('comment is_variable name scenario tags url values',
        {'*': ['load_parameter_values'], 'scenario': ['scenarios']}),
    'ConstantScenarioParameter': ('comment is_variable name scenario tags url values',
        {'*': ['load_parameter_values'], 'scenario': ['scenarios']}),
    'ControlCurveIndexParameter': ('comment control_curves is_variable name storage_node tags',
        {'control_curves': ['load_parameter'], 'storage_node': ['nodes']}),
    'ControlCurveInterpolatedParameter': ('comment control_curve control_curves is_variable name parameters storage_node tags',
        {'*': ['load_parameter_values'], 'control_curve': ['load_parameter'], 'control_curves': ['load_parameter'], 'parameters': ['load_parameter'], 'storage_node': ['nodes']}),
    'ControlCurveParameter': ('comment control_curve control_curves is_variable lower_bounds name parameters storage_node tags upper_bounds variable_indices',
        {'*': ['load_parameter_values'], 'control_curve': ['load_parameter'], 'control_curves': ['load_parameter'], 'parameters': ['load_parameter'], 'storage_node': ['nodes']}),
    'ControlCurvePiecewiseInterpolatedParameter': ('comment control_curve control_curves is_variable maximum minimum name storage_node tags',
        {'*': ['load_parameter_values'], 'control_curve': ['load_parameter'], 'control_curves': ['load_parameter'], 'storage_node': ['nodes']}),
    'CurrentOrdinalDayThresholdParameter': ('comment is_variable name predicate ratchet tags threshold values',
        {'threshold': ['load_parameter']}),
    'CurrentYearThresholdParameter': ('comment is_variable name predicate ratchet tags threshold values',
        {'threshold': ['load_parameter']}),
    'DailyLicense': ('amount comment is_variable name node tags',
        {'node': ['nodes']}),
    'DailyProfileParameter': ('comment is_variable name scenario tags url values',
        {'*': ['load_parameter_values'], 'scenario': ['scenarios']}),
    'DataFrameParameter': ('comment is_variable name scenario tags timestep_offset',
        {'*': ['load_dataframe'], 'scenario': ['scenarios']}),
    'DeficitParameter': ('comment is_variable name node tags',
        {'node': ['nodes']}),
    'DiscountFactorParameter': ('base_year comment is_variable name rate tags',
        {}),
    'DivisionParameter': ('comment denominator is_variable name numerator tags',
        {'denominator': ['load_parameter'], 'numerator': ['load_parameter']}),
    'FlowDelayParameter': ('comment days initial_flow is_variable name node tags timesteps',
        {'node': ['nodes']}),
    'FlowParameter': ('comment initial_value is_variable name node tags',
        {'node': ['nodes']}),
    'HydropowerTargetParameter': ('comment density efficiency energy_unit_conversion flow_unit_conversion is_variable max_flow min_flow min_head name tags target turbine_elevation water_elevation_parameter',
        {'max_flow': ['load_parameter'], 'min_flow': ['load_parameter'], 'target': ['load_parameter'], 'water_elevation_parameter': ['load_parameter']}),
    'IndexedArrayParameter': ('comment index_parameter is_variable name parameters params tags',
        {'index_parameter': ['load_parameter'], 'parameters': ['load_parameter'], 'params': ['load_parameter']}),
    'InterpolatedFlowParameter': ('comment flows interp_kwargs is_variable name node tags values x y',
        {'node': ['nodes']}),
    'InterpolatedParameter': ('comment interp_kwargs is_variable name parameter tags x y',
        {'parameter': ['load_parameter']}),
    'InterpolatedQuadratureParameter': ('comment interp_kwargs is_variable lower_parameter name tags upper_parameter x y',
        {'lower_parameter': ['load_parameter'], 'upper_parameter': ['load_parameter']}),
    'InterpolatedVolumeParameter': ('comment interp_kwargs is_variable name node tags values volumes x y',
        {'node': ['nodes'], 'values': ['load_parameter_values'], 'volumes': ['load_parameter_values']}),
    'LogisticParameter': ('comment growth_rate is_variable lower_bounds max_output name tags upper_bounds value',
        {}),
    'MaxParameter': ('comment is_variable name parameter tags threshold',
        {'parameter': ['load_parameter']}),
    'MinParameter': ('comment is_variable name parameter tags threshold',
        {'parameter': ['load_parameter']}),
    'MonthlyProfileParameter': ('comment interp_day is_variable lower_bounds name scenario tags upper_bounds url values',
        {'*': ['load_parameter_values'], 'scenario': ['scenarios']}),
    'MultipleThresholdIndexParameter': ('comment is_variable name node tags thresholds use_max_flow',
        {'node': ['nodes'], 'thresholds': ['load_parameter']}),
    'MultipleThresholdParameterIndexParameter': ('comment is_variable name parameter tags thresholds use_max_flow',
        {'parameter': ['load_parameter'], 'thresholds': ['load_parameter']}),
    'NegativeMaxParameter': ('comment is_variable name parameter tags threshold',
        {'parameter': ['load_parameter']}),
    'NegativeMinParameter': ('comment is_variable name parameter tags threshold',
        {'parameter': ['load_parameter']}),
    'NegativeParameter': ('comment is_variable name parameter tags',
        {'parameter': ['load_parameter']}),
    'NodeThresholdParameter': ('comment is_variable name node predicate ratchet tags threshold values',
        {'node': ['nodes'], 'threshold': ['load_parameter']}),
    'OffsetParameter': ('comment is_variable lower_bounds name offset parameter tags upper_bounds',
        {'parameter': ['load_parameter']}),
    'OtherModelIndexParameterValueIndexParameter': ('comment is_variable name other_model parameter tags',
        {}),
    'OtherModelNodeFlowParameter': ('comment is_variable name node other_model tags',
        {}),
    'OtherModelNodeStorageParameter': ('comment is_variable name node other_model tags',
        {}),
    'OtherModelParameterValueParameter': ('comment is_variable name other_model parameter tags',
        {}),
    'ParameterThresholdParameter': ('comment is_variable name parameter predicate ratchet tags threshold values',
        {'parameter': ['load_parameter'], 'threshold': ['load_parameter']}),
    'PiecewiseIntegralParameter': ('comment is_variable name parameter tags x y',
        {'parameter': ['load_parameter']}),
    'Polynomial1DParameter': ('coefficients comment is_variable name node offset parameter scale storage_node tags use_proportional_volume',
        {'node': ['nodes'], 'parameter': ['load_parameter'], 'storage_node': ['nodes']}),
    'Polynomial2DStorageParameter': ('coefficients comment is_variable name parameter parameter_offset parameter_scale storage_node storage_offset storage_scale tags use_proportional_volume',
        {'parameter': ['load_parameter'], 'storage_node': ['nodes']}),
    'RbfProfileParameter': ('comment days_of_year is_variable lower_bounds max_value min_value name rbf_kwargs tags upper_bounds values variable_days_lower_bounds variable_days_of_year_range variable_days_upper_bounds',
        {}),
    'RecorderThresholdParameter': ('comment initial_value is_variable name predicate ratchet recorder tags threshold values',
        {'recorder': ['load_recorder'], 'threshold': ['load_parameter']}),
    'RectifierParameter': ('comment is_variable lower_bounds max_output min_output name tags upper_bounds value',
        {}),
    'RollingMeanFlowNodeParameter': ('comment days initial_flow is_variable name node tags timesteps',
        {'node': ['nodes']}),
    'ScaledProfileParameter': ('comment is_variable name profile scale tags',
        {'profile': ['load_parameter']}),
    'ScenarioDailyProfileParameter': ('comment is_variable name scenario tags url values',
        {'*': ['load_parameter_values'], 'scenario': ['scenarios']}),
    'ScenarioMonthlyProfileParameter': ('comment is_variable name scenario tags url values',
        {'*': ['load_parameter_values'], 'scenario': ['scenarios']}),
    'ScenarioWeeklyProfileParameter': ('comment is_variable name scenario tags url values',
        {'*': ['load_parameter_values'], 'scenario': ['scenarios']}),
    'ScenarioWrapperParameter': ('comment is_variable name parameters scenario tags',
        {'parameters': ['load_parameter'], 'scenario': ['scenarios']}),
    'StorageLicense': ('amount comment is_variable name node tags',
        {'node': ['nodes']}),
    'StorageParameter': ('comment is_variable name storage_node tags use_proportional_volume',
        {'storage_node': ['nodes']}),
    'StorageThresholdParameter': ('comment is_variable name predicate ratchet storage_node tags threshold values',
        {'storage_node': ['nodes'], 'threshold': ['load_parameter']}),
    'TablesArrayParameter': ('checksum comment is_variable name node scenario tags timestep_offset url where',
        {'checksum': ['check_hash'], 'scenario': ['scenarios'], 'url': ['check_hash']}),
    'TimestepLicense': ('amount comment is_variable name node tags',
        {'node': ['nodes']}),
    'UniformDrawdownProfileParameter': ('comment is_variable name reset_day reset_month residual_days tags',
        {}),
    'WeeklyProfileParameter': ('comment is_variable name scenario tags url values',
        {'*': ['load_parameter_values'], 'scenario': ['scenarios']}),
    'WeightedAverageProfileParameter': ('comment is_variable name profiles storages tags',
        {'profiles': ['load_parameter'], 'storages': ['nodes']}),
}

RECORDER = {
    'AggregatedRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name recorder_agg_func recorders tags',
        {'recorders': ['load_recorder']}),
    'AnnualCountIndexParameterRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name parameter tags threshold',
        {'parameter': ['load_parameter']}),
    'AnnualCountIndexThresholdRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon exclude_months ignore_nan include_from_day include_from_month include_to_day include_to_month is_objective name parameters tags temporal_agg_func threshold',
        {'parameters': ['load_parameter']}),
    'AnnualTotalFlowRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factors ignore_nan is_objective name nodes tags temporal_agg_func',
        {'nodes': ['nodes']}),
    'BaseConstantStorageRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node tags',
        {'node': ['nodes']}),
    'CSVRecorder': ('agg_func comment complevel complib constraint_lower_bounds constraint_upper_bounds csv_kwargs epsilon ignore_nan is_objective name nodes scenario_index tags url',
        {}),
    'DeficitFrequencyNodeRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node tags',
        {'node': ['nodes']}),
    'EventDurationRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon event_recorder ignore_nan is_objective name recorder_agg_func tags',
        {'event_recorder': ['load_recorder']}),
    'EventRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon event_agg_func ignore_nan is_objective minimum_event_length name tags threshold tracked_parameter',
        {'threshold': ['load_parameter', 'load_recorder'], 'tracked_parameter': ['load_parameter']}),
    'EventStatisticRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon event_agg_func event_recorder ignore_nan is_objective name recorder_agg_func tags',
        {'event_recorder': ['load_recorder']}),
    'FlowDurationCurveDeviationRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factor fdc_agg_func ignore_nan is_objective lower_target_fdc name node percentiles scenario tags temporal_agg_func upper_target_fdc',
        {'lower_target_fdc': ['load_parameter_values'], 'node': ['nodes'], 'scenario': ['scenarios'], 'upper_target_fdc': ['load_parameter_values']}),
    'FlowDurationCurveRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factor fdc_agg_func ignore_nan is_objective name node percentiles tags temporal_agg_func',
        {'node': ['nodes']}),
    'GaussianKDEStorageRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node num_pdf proportional resample_freq resample_func tags target_volume_pc temporal_agg_func use_reflection',
        {'node': ['nodes']}),
    'HydropowerRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds density efficiency energy_unit_conversion epsilon factor flow_unit_conversion ignore_nan is_objective name node tags temporal_agg_func turbine_elevation water_elevation_parameter',
        {'node': ['nodes'], 'water_elevation_parameter': ['load_parameter']}),
    'MeanFlowNodeRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factor ignore_nan is_objective name node tags',
        {'node': ['nodes']}),
    'MeanParameterRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factor ignore_nan is_objective name node parameter tags',
        {'node': ['nodes'], 'parameter': ['load_parameter']}),
    'MinimumThresholdVolumeStorageRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node tags threshold',
        {'node': ['nodes']}),
    'MinimumVolumeStorageRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node tags',
        {'node': ['nodes']}),
    'NormalisedGaussianKDEStorageRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node num_pdf parameter resample_freq resample_func tags temporal_agg_func use_reflection',
        {'node': ['nodes'], 'parameter': ['load_parameter']}),
    'NumpyArrayAreaRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node tags temporal_agg_func',
        {'node': ['nodes']}),
    'NumpyArrayDailyProfileParameterRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node parameter tags temporal_agg_func',
        {'node': ['nodes'], 'parameter': ['load_parameter']}),
    'NumpyArrayIndexParameterRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name parameter tags temporal_agg_func',
        {'parameter': ['load_parameter']}),
    'NumpyArrayLevelRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node tags temporal_agg_func',
        {'node': ['nodes']}),
    'NumpyArrayNodeCostRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factor ignore_nan is_objective name node tags temporal_agg_func',
        {'node': ['nodes']}),
    'NumpyArrayNodeCurtailmentRatioRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factor ignore_nan is_objective name node tags temporal_agg_func',
        {'node': ['nodes']}),
    'NumpyArrayNodeDeficitRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factor ignore_nan is_objective name node tags temporal_agg_func',
        {'node': ['nodes']}),
    'NumpyArrayNodeRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factor ignore_nan is_objective name node tags temporal_agg_func',
        {'node': ['nodes']}),
    'NumpyArrayNodeSuppliedRatioRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factor ignore_nan is_objective name node tags temporal_agg_func',
        {'node': ['nodes']}),
    'NumpyArrayNormalisedStorageRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node parameter tags temporal_agg_func',
        {'node': ['nodes'], 'parameter': ['load_parameter']}),
    'NumpyArrayParameterRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node parameter tags temporal_agg_func',
        {'node': ['nodes'], 'parameter': ['load_parameter']}),
    'NumpyArrayStorageRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node proportional tags temporal_agg_func',
        {'node': ['nodes']}),
    'RollingMeanFlowNodeRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds days epsilon ignore_nan is_objective name node tags timesteps',
        {'node': ['nodes']}),
    'RollingWindowParameterRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name parameter tags temporal_agg_func window',
        {'parameter': ['load_parameter']}),
    'SeasonalFlowDurationCurveRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factor fdc_agg_func ignore_nan is_objective months name node percentiles tags temporal_agg_func',
        {'node': ['nodes']}),
    'StorageDurationCurveRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node percentiles proportional sdc_agg_func tags temporal_agg_func',
        {'node': ['nodes']}),
    'TablesRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds create_directories epsilon filter_kwds ignore_nan is_objective metadata mode name nodes parameters routes routes_flows scenarios tags time title url use_legacy_attribute_naming where',
        {}),
    'TablesRecorder2': ('agg_func buffer_size buffer_timesteps comment constraint_lower_bounds constraint_upper_bounds create_directories epsilon filter_kwds ignore_nan is_objective metadata mode name nodes parameters routes routes_flows scenarios tags time title url where',
        {}),
    'TimestepCountIndexParameterRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name parameter tags threshold',
        {'parameter': ['load_parameter']}),
    'TotalDeficitNodeRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon ignore_nan is_objective name node tags',
        {'node': ['nodes']}),
    'TotalFlowNodeRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factor ignore_nan is_objective name node tags',
        {'node': ['nodes']}),
    'TotalHydroEnergyRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds density efficiency energy_unit_conversion epsilon flow_unit_conversion ignore_nan is_objective name node tags turbine_elevation water_elevation_parameter',
        {'node': ['nodes'], 'water_elevation_parameter': ['load_parameter']}),
    'TotalParameterRecorder': ('agg_func comment constraint_lower_bounds constraint_upper_bounds epsilon factor ignore_nan integrate is_objective name node parameter tags',
        {'node': ['nodes'], 'parameter': ['load_parameter']}),
}

NODE = {
    'AggregatedNode': ('color comment domain flow_weights name nodes parent position tags visible', 'factors max_flow min_flow', 'nodes', ''),
    'AggregatedStorage': ('color comment domain name parent position storage_nodes tags visible', '', 'storage_nodes', ''),
    'AnnualVirtualStorage': ('color comment cost domain factors initial_volume initial_volume_pc max_volume min_volume name nodes parent position reset_day reset_month reset_to_initial_volume tags visible', 'max_volume min_volume', 'nodes', ''),
    'BreakLink': ('color comment conversion_factor cost domain max_flow min_flow name parent position tags visible', 'cost max_flow min_flow', '', ''),
    'Catchment': ('color comment conversion_factor cost domain flow max_flow min_flow name parent position tags visible', 'cost flow', '', ''),
    'DelayNode': ('color comment conversion_factor cost days domain initial_flow max_flow min_flow name parent position tags timesteps visible', 'cost max_flow min_flow', '', ''),
    'Discharge': ('color comment conversion_factor cost domain flow max_flow min_flow name parent position tags visible', 'cost flow', '', ''),
    'Input': ('color comment conversion_factor cost domain max_flow min_flow name parent position tags visible', 'cost max_flow min_flow', '', ''),
    'KeatingAquifer': ('area coefficient color comment cost domain initial_volume initial_volume_pc inputs level levels max_volume min_volume name num_additional_inputs num_streams outputs parent position storativity stream_flow_levels tags transmissivity visible volumes', 'area cost level max_volume min_volume', '', 'initial_volume'),
    'Link': ('color comment conversion_factor cost domain max_flow min_flow name parent position tags visible', 'cost max_flow min_flow', '', ''),
    'LossLink': ('color comment conversion_factor cost domain loss_factor loss_factor_type max_flow min_flow name parent position tags visible', 'cost loss_factor max_flow min_flow', '', ''),
    'MonthlyVirtualStorage': ('color comment cost domain factors initial_months initial_volume initial_volume_pc max_volume min_volume months name nodes parent position reset_to_initial_volume tags visible', 'max_volume min_volume', 'nodes', ''),
    'MultiSplitLink': ('color comment conversion_factor cost costs domain extra_slots factors max_flow max_flows min_flow name nsteps parent position slot_names tags visible', 'costs max_flows', '', ''),
    'Node': ('color comment conversion_factor cost domain max_flow min_flow name parent position tags visible', 'cost max_flow min_flow', '', ''),
    'Output': ('color comment conversion_factor cost domain max_flow min_flow name parent position tags visible', 'cost max_flow min_flow', '', ''),
    'PiecewiseLink': ('color comment conversion_factor cost costs domain max_flow max_flows min_flow name nsteps parent position tags visible', 'costs max_flows', '', ''),
    'Reservoir': ('above_curve_cost area color comment control_curve cost domain initial_volume initial_volume_pc inputs level max_volume min_volume name outputs parent position tags visible', 'area cost level max_volume min_volume', '', 'initial_volume'),
    'River': ('color comment conversion_factor cost domain max_flow min_flow name parent position tags visible', 'cost max_flow min_flow', '', ''),
    'RiverGauge': ('color comment conversion_factor cost costs domain max_flow max_flows min_flow mrf mrf_cost name nsteps parent position tags visible', 'cost mrf mrf_cost', '', ''),
    'RiverSplit': ('color comment conversion_factor cost costs domain extra_slots factors max_flow max_flows min_flow name nsteps parent position slot_names tags visible', 'costs max_flows', '', ''),
    'RiverSplitWithGauge': ('color comment conversion_factor cost costs domain extra_slots factors max_flow max_flows min_flow mrf mrf_cost name nsteps parent position slot_names tags visible', 'cost mrf mrf_cost', '', ''),
    'RollingVirtualStorage': ('color comment cost days domain factors initial_volume initial_volume_pc max_volume min_volume name nodes parent position tags timesteps visible', 'max_volume min_volume', 'nodes', ''),
    'SeasonalVirtualStorage': ('color comment cost domain end_day end_month factors initial_volume initial_volume_pc max_volume min_volume name nodes parent position reset_day reset_month reset_to_initial_volume tags visible', 'max_volume min_volume', 'nodes', ''),
    'ShadowNode': ('color comment domain name node other_model parent position tags visible', '', '', ''),
    'ShadowStorage': ('color comment domain name node other_model parent position tags visible', '', '', ''),
    'Storage': ('area color comment cost domain initial_volume initial_volume_pc inputs level max_volume min_volume name outputs parent position tags visible', 'area cost level max_volume min_volume', '', 'initial_volume'),
    'VirtualStorage': ('color comment cost domain factors initial_volume initial_volume_pc max_volume min_volume name nodes parent position tags visible', 'max_volume min_volume', 'nodes', ''),
}

# sections and keys of the documents of whole models
MODEL = {
    "_model.Model": "metadata solver solver/name timestepper timestepper/start timestepper/end timestepper/timestep includes scenarios "
                    "scenarios/name scenarios/size scenarios/slice scenarios/ensemble_names scenario_combinations tables nodes "
                    "parameters recorders edges",
    "model.MultiModel": "timestepper timestepper/start timestepper/end timestepper/timestep models models/name models/filename models/data "
                        "models/path models/solver",
}
