"""What each property's check runs."""

def S(domain, profile, quick, thorough, **kw):
    d = dict(domain=domain, profile=profile, quick=quick, thorough=thorough,
             name='%s_%s' % (domain, profile))
    d.update(kw)
    return d


def simulated(quick, thorough):
    return S('sets', 'sim', 0, 0, name='sets_tlc',
             simulate={'quick': ('MCStore', 'MCStore_sim.cfg', quick, 13),
                       'thorough': ('MCStore', 'MCStore_sim.cfg', thorough, 13)})


SUITES = {
    'C01': [S('sets', 'C01', 1200, 20000)],
    'C02': [S('sets', 'C02', 1200, 20000)],
    'C03': [S('sets', 'C03', 1200, 20000)],
    'C04': [S('sets', 'C04', 1200, 20000)],
    'C05': [S('sets', 'C05', 1200, 20000)],
    'C06': [S('sets', 'C06', 800, 20000), S('tags', 'C06', 1200, 20000),
            S('tags', 'reserved', 160, 1000),
            S('tags', 'sim', 0, 0, name='tags_tlc',
              simulate={'quick': ('MCTags', 'MCTags_sim.cfg', 800, 15),
                        'thorough': ('MCTags', 'MCTags_sim.cfg', 20000, 15)})],
    'C07': [S('sets', 'C07', 600, 12000), simulated(400, 8000)],
    'C08': [S('sets', 'C08', 1000, 20000)],
    'C09': [S('sets', 'C09', 1000, 20000)],
    'C10': [S('fourier', 'C10', 1600, 30000)],
    'C11': [S('mest', 'C11', 1600, 30000)],
    'C12': [S('memo', 'C12', 480, 12000), S('memo', 'C12i', 120, 3000),
            S('memo', 'sim', 0, 0, name='memo_tlc',
              simulate={'quick': ('MCWeights', 'MCWeights_sim.cfg', 240, 80),
                        'thorough': ('MCWeights', 'MCWeights_sim.cfg', 6000, 80)})],
    'C15': [S('memo', 'C15', 160, 4000)],
    'C13': [S('imp', 'C13', 1600, 30000)],
    'C14': [S('imp', 'C14', 1600, 30000), S('imp', 'times', 600, 10000)],
    'C27': [S('lazy', 'C27', 1000, 16000),
            S('lazy', 'sim', 0, 0, name='lazy_tlc',
              simulate={'quick': ('MCLazy', 'MCLazy_sim.cfg', 320, 26),
                        'thorough': ('MCLazy', 'MCLazy_sim.cfg', 8000, 26)})],
    'C16': [S('files', 'C16', 1600, 30000)],
    'C17': [S('ats', 'C17', 1600, 30000)],
    'C18': [S('cal', 'C18', 1600, 30000)],
    'C19': [S('data', 'C19', 800, 12000, maxchunk=50)],
    'C20': [S('paths', 'C20', 4000, 60000, maxchunk=600)],
    'C21': [S('stats', 'C21', 3000, 60000)],
    'C22': [S('weights', 'C22', 2400, 40000)],
    'C23': [S('stats', 'C23', 3000, 60000)],
    'C25': [S('tones', 'C25', 1600, 30000)],
    'C26': [S('mest', 'C26', 1600, 30000)],
    'C24': [S('values', 'C24', 800, 16000)],
}

# (module, configuration, 'quick' or 'thorough' only)
MODELS = {
    'C27': [('MCLazy', 'MCLazy.cfg', 'quick'), ('MCLazy', 'MCLazy2.cfg', 'thorough')],
    'C01': [('MCLaws', 'MCLaws_join.cfg', 'quick'), ('MCLaws', 'MCLaws_join2.cfg', 'thorough')],
    'C02': [('MCLaws', 'MCLaws_merge.cfg', 'quick'), ('MCLaws', 'MCLaws_merge2.cfg', 'thorough')],
    'C03': [('MCLaws', 'MCLaws_extract.cfg', 'quick')],
    'C04': [('MCLaws', 'MCLaws_channels.cfg', 'quick')],
    'C05': [('MCLaws', 'MCLaws_fuse.cfg', 'quick')],
    'C06': [('MCTags', 'MCTags_bfs.cfg', 'quick'), ('MCTags', 'MCTags_bfs2.cfg', 'thorough')],
    'C10': [('MCFourier', 'MCFourier.cfg', 'quick'), ('MCFourier', 'MCFourier2.cfg', 'thorough')],
    'C11': [('MCRegression', 'MCRegression.cfg', 'quick'), ('MCRegression', 'MCRegression2.cfg', 'thorough'),
            ('MCChain', 'MCChain.cfg', 'quick'), ('MCRegression', 'MCRegression3.cfg', 'thorough')],
    'C12': [('MCWeights', 'MCWeights_bfs.cfg', 'quick'), ('MCWeights', 'MCWeights_bfs2.cfg', 'thorough')],
    'C13': [('MCImp', 'MCImp.cfg', 'quick')],
    'C14': [('MCImp', 'MCImp.cfg', 'quick'), ('MCImp', 'MCImp_remote.cfg', 'quick'),
            ('MCImp', 'MCImp_remote2.cfg', 'thorough')],
    'C15': [('MCMass', 'MCMass.cfg', 'quick')],
    'C17': [('MCAts', 'MCAts.cfg', 'quick'), ('MCAts', 'MCAts2.cfg', 'thorough')],
    'C18': [('MCCal', 'MCCal.cfg', 'quick'), ('MCCal', 'MCCal_phoenix.cfg', 'quick')],
    'C21': [('MCStats', 'MCStats.cfg', 'quick'), ('MCStats', 'MCStats2.cfg', 'thorough'), ('MCStats', 'MCStats3.cfg', 'thorough')],
    'C23': [('MCStats', 'MCStats.cfg', 'quick'), ('MCStats', 'MCStats2.cfg', 'thorough'), ('MCStats', 'MCStats3.cfg', 'thorough')],
    'C24': [('MCMass', 'MCMass.cfg', 'quick')],
    'C25': [('MCTones', 'MCTones.cfg', 'quick')],
    'C16': [('MCFiles', 'MCFiles.cfg', 'quick'), ('MCFiles', 'MCFiles2.cfg', 'thorough')],
    'C19': [('MCData', 'MCData.cfg', 'quick'), ('MCData', 'MCData2.cfg', 'thorough')],
    'C20': [('MCPaths', 'MCPaths.cfg', 'quick'), ('MCPaths', 'MCPaths2.cfg', 'thorough')],
    'C22': [('MCHuber', 'MCHuber.cfg', 'quick'), ('MCHuber', 'MCHuber2.cfg', 'thorough')],
    'C26': [('MCChain', 'MCChain_real.cfg', 'quick'), ('MCChain', 'MCChain_plain.cfg', 'thorough'),
            ('MCChain', 'MCChain_real2.cfg', 'thorough')],
    'C07': [('MCStore', 'MCStore_bfs.cfg', 'quick')],
    'C08': [('MCLaws', 'MCLaws_inv.cfg', 'quick'), ('MCLaws', 'MCLaws_inv2.cfg', 'thorough')],
    'C09': [('MCLaws', 'MCLaws_pack.cfg', 'quick'), ('MCLaws', 'MCLaws_pack2.cfg', 'thorough')],
}

ASSUMPTIONS = {
    'all': ['TLC 2.19 and its Json module', 'CPython 3, numpy and dask of /opt/venv',
            'the projection of real objects in harness/ (an adapter over the public API)'],
}
