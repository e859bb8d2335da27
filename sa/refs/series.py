# Time series and tables from outside: how they are read, selected from and brought to the model's steps.  Interpreted, never executed.

@spec("dataframe_tools:", "align_and_resample_dataframe", props="C27",
      cases=[{"?": ['isinstance(arg:df.index, pandas.PeriodIndex)']},
             {"?": ['not isinstance(arg:df.index, pandas.PeriodIndex)', 'raises(AttributeError)']},
             {"?": ['not isinstance(arg:df.index, pandas.PeriodIndex)', 'not raises(AttributeError)']}])
def f(df, target_index, resample_func='mean'):
    start = target_index[0]
    end = target_index[-1]
    if not isinstance(df.index, pandas.PeriodIndex):
        try:
            df = df.to_period()
        except AttributeError:
            df = df.to_period(df.index.freq.freqstr)
    if not isinstance(target_index, pandas.PeriodIndex):
        raise ValueError('Period index expected.')
    model_freq = target_index.freq
    df_freq = df.index.freq
    if isinstance(model_freq, Tick):
        if isinstance(df_freq, Tick):
            if model_freq >= df_freq:
                df = _down_sample_tick_to_tick(df, target_index, resample_func)
            else:
                df = _up_sample_tick_to_tick(df, target_index)
        else:
            df = _resample_date_offset_to_tick(df, target_index, resample_func)
    elif isinstance(model_freq, DateOffset):
        if isinstance(df_freq, Tick):
            df = _down_sample_tick_to_date_offset(df, target_index, resample_func)
        else:
            try:
                df = _resample_date_offset_to_date_offset(df, target_index, resample_func)
            except IncompatibleFrequency:
                raise ResamplingError(df, target_index)
    df = df[start:end]
    if not df.index.equals(target_index):
        raise ResamplingError(df, target_index)
    if df.isnull().values.any():
        raise ValueError('Missing values detected after resampling dataframe.')
    return df


@spec("dataframe_tools:", "_resample_date_offset_to_date_offset", props="C27")
def f(df, target_index, resample_func):
    new_df = df.resample(target_index.freq).agg(resample_func)
    new_df = new_df[target_index[0]:target_index[-1]]
    return new_df


@spec("dataframe_tools:", "_down_sample_tick_to_date_offset", props="C27")
def f(df, target_index, resample_func):
    new_df = df.resample(target_index.freq).agg(resample_func)
    new_df = new_df[target_index[0]:target_index[-1]]
    return new_df


@spec("dataframe_tools:", "_down_sample_tick_to_tick", props="C27")
def f(df, target_index, resample_func):
    start = target_index[0].asfreq(df.index.freq, how='start')
    end = target_index[-1].asfreq(df.index.freq, how='end')
    new_df = df[start:end]
    new_df = new_df.resample(target_index.freq).agg(resample_func)
    return new_df


@spec("dataframe_tools:", "_resample_date_offset_to_tick", props="C27")
def f(df, target_index, resample_func):
    target_tick = target_index.freq
    target_single_tick = target_tick.base
    new_df = df.resample(target_single_tick).ffill()
    start = target_index[0].asfreq(target_single_tick, how='start')
    end = target_index[-1].asfreq(target_single_tick, how='end')
    new_df = new_df[start:end]
    if target_tick.n > 1:
        new_df = new_df.resample(target_tick).agg(resample_func)
    return new_df


@spec("dataframe_tools:", "_up_sample_tick_to_tick", props="C27")
def f(df, target_index):
    new_df = df.resample(target_index.freq).ffill()
    return new_df


@spec("dataframe_tools:", "load_dataframe", props="C27", calls="read_dataframe", keep="read_dataframe",
      cases=[{"?": ["arg:data.pop('table', None) is None", "not arg:data.pop('column', None) is None", "arg:data.pop('columns', None) is None", "arg:data.pop('index', None) is None", "arg:data.pop('indexes', None) is None"]},
             {"?": ["arg:data.pop('table', None) is None", "arg:data.pop('column', None) is None", "not arg:data.pop('columns', None) is None", "arg:data.pop('index', None) is None", "arg:data.pop('indexes', None) is None"]},
             {"?": ["arg:data.pop('table', None) is None", "arg:data.pop('column', None) is None", "arg:data.pop('columns', None) is None", "not arg:data.pop('index', None) is None", "arg:data.pop('indexes', None) is None"]},
             {"?": ["arg:data.pop('table', None) is None", "arg:data.pop('column', None) is None", "arg:data.pop('columns', None) is None", "arg:data.pop('index', None) is None", "not arg:data.pop('indexes', None) is None"]},
             {"?": ["not arg:data.pop('table', None) is None", "arg:data.pop('column', None) is None", "arg:data.pop('columns', None) is None", "arg:data.pop('index', None) is None", "arg:data.pop('indexes', None) is None"]},
             {"?": ["arg:data.pop('table', None) is None", "not arg:data.pop('column', None) is None", "arg:data.pop('columns', None) is None", "not arg:data.pop('index', None) is None", "arg:data.pop('indexes', None) is None"]}])
def f(model, data):
    column = data.pop('column', None)
    if isinstance(column, list):
        column = tuple(column)
    index = data.pop('index', None)
    if isinstance(index, list):
        index = tuple(index)
    columns = data.pop('columns', None)
    indexes = data.pop('indexes', None)
    table_ref = data.pop('table', None)
    if table_ref is not None:
        name = table_ref
        df = model.tables[table_ref]
    else:
        name = data.get('url', None)
        df = read_dataframe(model, data)
    if column is not None:
        try:
            df = df[column]
        except KeyError:
            raise KeyError('Column "{}" not found in dataset "{}"'.format(column, name))
    if columns is not None:
        try:
            df = df[columns]
        except KeyError:
            raise KeyError('Columns "{}" not found in dataset "{}"'.format(columns, name))
    if index is not None:
        try:
            df = df.loc[index]
        except KeyError:
            raise KeyError('Index "{}" not found in dataset "{}"'.format(index, name))
    if indexes is not None:
        try:
            df = df.loc[indexes, :]
        except KeyError:
            raise KeyError('Indexes "{}" not found in dataset "{}"'.format(index, name))
    try:
        if isinstance(df.index, pandas.DatetimeIndex):
            if df.index.freq is None:
                freq = pandas.infer_freq(df.index)
                if freq is None:
                    raise IndexError('Failed to identify frequency of dataset "{}"'.format(name))
                df = df.asfreq(freq)
    except AttributeError:
        pass
    return df


@spec("dataframe_tools:", "read_dataframe", props="C27",
      cases=[{"?": ["arg:data.pop('url', None) is None"]},
             {"?": ["not arg:data.pop('url', None) is None", 'arg:model.path is None', 'raises(KeyError)']},
             {"?": ["not arg:data.pop('url', None) is None", 'arg:model.path is None', 'not raises(KeyError)']},
             {"?": ["not arg:data.pop('url', None) is None", 'not arg:model.path is None', 'not raises(KeyError)']}])
def f(model, data):
    url = data.pop('url', None)
    if url is not None:
        if not os.path.isabs(url) and model.path is not None:
            url = os.path.join(model.path, url)
    else:
        df_data = data.pop('data', None)
    if url is None and df_data is None:
        raise ValueError('No data specified. Provide a "url" or "data" key.')
    if url is not None:
        checksums = data.pop('checksum', {})
        for algo, hash in checksums.items():
            model.check_hash(url, hash, algorithm=algo)
        try:
            filetype = data.pop('filetype')
        except KeyError:
            if url.endswith(('.xls', '.xlsx')):
                filetype = 'excel'
            elif url.endswith(('.csv', '.gz')):
                filetype = 'csv'
            elif url.endswith(('.hdf', '.hdf5', '.h5')):
                filetype = 'hdf'
            else:
                if not url.endswith(('.rds', '.Rds', '.rdata', '.RData')):
                    raise NotImplementedError('Unknown file extension: "{}"'.format(url))
                filetype = 'rds'
    else:
        if 'filetype' in data:
            raise ValueError('"filetype" is only valid when loading data from a URL.')
        if 'checksum' in data:
            raise ValueError('"checksum" is only valid when loading data from a URL.')
        filetype = 'dict'
    data.pop('comment', None)
    if filetype == 'csv':
        df = pandas.read_csv(url, **data)
    elif filetype == 'excel':
        df = pandas.read_excel(url, **data)
    elif filetype == 'hdf':
        key = data.pop('key', None)
        df = pandas.read_hdf(url, key=key, **data)
    elif filetype == 'dict':
        parse_dates = data.pop('parse_dates', False)
        df = pandas.DataFrame.from_dict(df_data, **data)
        if parse_dates:
            df.index = pandas.DatetimeIndex(df.index)
    else:
        if not filetype == 'rds':
            raise NotImplementedError('Unsupported file type: "{}"'.format(filetype))
        try:
            from pyreadr import pyreadr
        except ImportError:
            raise ImportError('The "pyreadr" package is required to read RDS or RDATA files. Please install it and try again.')
        else:
            result = pyreadr.read_r(url)
            key = data.pop('key', None)
            df = result[key]
            parse_dates = data.pop('parse_dates', False)
            index_col = data.pop('index_col', None)
            if index_col is not None:
                if parse_dates:
                    df[index_col] = pandas.to_datetime(df[index_col])
                df.set_index(index_col, inplace=True)
    if df.index.dtype.name == 'object' and data.get('parse_dates', False):
        raise TypeError('Invalid DataFrame index type "{}" in "{}".'.format(df.index.dtype.name, url))
    data.clear()
    return df


@spec("parameters._parameters:", "load_parameter_values", props="C27", calls="load_dataframe", keep="load_dataframe")
def f(model, data, values_key='values', url_key='url', table_key='table'):
    if values_key in data:
        values = np.array(data.pop(values_key), np.float64)
    else:
        if not (url_key in data or table_key in data):
            name = data.get('name', None)
            ptype = data.get('type', None)
            raise ValueError("Parameter ('{name}' of type '{ptype}' is missing a valid key to load its values. Please provide either a '{}', '{}' or '{}' entry.".format(values_key, url_key, table_key, name=name, ptype=ptype))
        df = load_dataframe(model, data)
        try:
            values = df.values
        except AttributeError:
            values = df
        values = np.squeeze(values.astype(np.float64))
    return values


