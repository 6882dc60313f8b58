import os

HERE = os.path.dirname(os.path.abspath(__file__))

CHECKS = {
    'C01': dict(driver=['search.cpp'], mc=[dict(module='SearchMC.tla', cfg='SearchMC.cfg', min_states=20000)],
                trace=[dict(module='SearchTrace.tla', cfg='SearchTrace1.cfg')]),
    'C02': dict(driver=['search.cpp'], mc=[dict(module='SearchMC.tla', cfg='SearchMC.cfg', min_states=20000)],
                trace=[dict(module='SearchTrace.tla', cfg='SearchTrace2.cfg')]),
    'C03': dict(driver=['shrinksearch.cpp', 'longshrinks.cpp'],
                mc=[dict(module='ShrinkSearchMC.tla', cfg='ShrinkSearchMC.cfg', min_states=3000),
                    dict(module='ShrinkSearchMC.tla', cfg='ShrinkSearchMCdeep.cfg', tier='thorough', heap='6g'),
                    dict(module='LongShrinkMC.tla', cfg='LongShrinkMC.cfg', min_states=5000)],
                trace=[dict(module='ShrinkSearchTrace.tla', cfg='ShrinkSearchTrace.cfg'),
                       dict(module='LongShrinkTrace.tla', cfg='LongShrinkTrace.cfg', file='long')]),
    'C04': dict(driver=['repro.cpp'], libs=['-Wl,--allow-multiple-definition'],
                mc=[dict(module='ReproMC.tla', cfg='ReproMC.cfg', min_states=3000)],
                trace=[dict(module='ReproTrace.tla', cfg='ReproTrace.cfg')]),
    'C05': dict(driver=['caseoutcome.cpp'],
                mc=[dict(module='CaseOutcome.tla', cfg='CaseOutcomeMC.cfg', min_states=3000)],
                trace=[dict(module='CaseOutcomeTrace.tla', cfg='CaseOutcomeTrace.cfg')]),
    'C06': dict(driver=['contexts.cpp'],
                mc=[dict(module='ImplicitEnvMC.tla', cfg='ImplicitEnvMC.cfg', min_states=3000),
                    dict(module='ImplicitEnvMC.tla', cfg='ImplicitEnvMCdeep.cfg', tier='thorough', heap='6g')],
                trace=[dict(module='ImplicitEnvTrace.tla', cfg='ImplicitEnvTrace.cfg'),
                       dict(module='ContextsTrace.tla', cfg='ContextsTrace.cfg', file='ctx')]),
    'C07': dict(driver=['recipe.cpp'],
                mc=[dict(module='RecipeMC.tla', cfg='RecipeMC.cfg', min_states=500),
                    dict(module='RecipeMC.tla', cfg='RecipeMCdeep.cfg', tier='thorough', heap='6g')],
                trace=[dict(module='RecipeTrace.tla', cfg='RecipeTrace.cfg')]),
    'C08': dict(driver=['scalarshrink.cpp'], san='ub',
                mc=[dict(module='ScalarShrinkMC.tla', cfg='ScalarShrinkMC.cfg', min_states=65000)],
                trace=[dict(module='ScalarShrinkTrace.tla', cfg='ScalarShrinkTrace.cfg')]),
    'C09': dict(driver=['collections.cpp'],
                mc=[dict(module='CollectionsMC.tla', cfg='CollectionsMC.cfg', min_states=1000),
                    dict(module='CollectionsMC.tla', cfg='CollectionsMCdeep.cfg', tier='thorough', heap='6g')],
                trace=[dict(module='CollectionsTrace.tla', cfg='CollectionsTrace.cfg')]),
    'C17': dict(driver=['gentree.cpp'],
                mc=[dict(module='GenAlgebraMC.tla', cfg='GenAlgebraMC.cfg', min_states=40000),
                    dict(module='GenAlgebraMC.tla', cfg='GenAlgebraMCdeep.cfg', tier='thorough', heap='8g')],
                trace=[dict(module='GenAlgebraTrace.tla', cfg='GenAlgebraTrace.cfg')]),
    'C24': dict(driver=['trees.cpp'], san='asan',
                mc=[dict(module='ShrinkTreeMC.tla', cfg='ShrinkTreeMC.cfg', min_states=5000),
                    dict(module='ShrinkTreeMC.tla', cfg='ShrinkTreeMCdeep.cfg', tier='thorough', heap='6g')],
                trace=[dict(module='ShrinkTreeTrace.tla', cfg='ShrinkTreeTrace.cfg')]),
    'C10': dict(driver=['contracts.cpp'],
                mc=[dict(module='ContractMC.tla', cfg='ContractMC.cfg', min_states=5000),
                    dict(module='GenAlgebraMC.tla', cfg='GenAlgebraMC.cfg', min_states=40000)],
                trace=[dict(module='ContractTrace.tla', cfg='ContractTrace.cfg')]),
    'C11': dict(driver=['stateful.cpp'],
                mc=[dict(module='StatefulMC.tla', cfg='StatefulMC.cfg', min_states=100000),
                    dict(module='StatefulMC.tla', cfg='StatefulMCdeep.cfg', tier='thorough', heap='8g')],
                trace=[dict(module='StatefulTrace.tla', cfg='StatefulTrace.cfg')]),
    'C12': dict(driver=['seqs.cpp', 'longseqs.cpp'], san='asan',
                mc=[dict(module='SeqMC.tla', cfg='SeqMC.cfg', min_states=50000),
                    dict(module='SeqMC.tla', cfg='SeqMCdeep.cfg', tier='thorough', heap='8g'),
                    dict(module='LongSeqMC.tla', cfg='LongSeqMC.cfg', min_states=5000),
                    dict(module='LongSeqMC.tla', cfg='LongSeqMCdeep.cfg', tier='thorough', heap='8g')],
                trace=[dict(module='SeqTrace.tla', cfg='SeqTrace.cfg'),
                       dict(module='LongSeqTrace.tla', cfg='LongSeqTrace.cfg', file='long')]),
    'C13': dict(driver=['random.cpp'], san='ub',
                mc=[dict(module='RandomMC.tla', cfg='RandomMC.cfg', min_states=20000),
                    dict(module='RandomMC.tla', cfg='RandomMCdeep.cfg', tier='thorough', heap='8g')],
                trace=[dict(module='RandomTrace.tla', cfg='RandomTrace.cfg')]),
    'C14': dict(driver=['codec.cpp'], san='asanub',
                mc=[dict(module='CodecMC.tla', cfg='CodecMC.cfg', min_states=100000),
                    dict(module='CodecMC.tla', cfg='CodecMCdeep.cfg', tier='thorough', heap='8g')],
                trace=[dict(module='CodecTrace.tla', cfg='CodecTrace.cfg')]),
    'C15': dict(driver=['config.cpp'], san='asanub',
                mc=[dict(module='ConfigMC.tla', cfg='ConfigMC.cfg', min_states=60000),
                    dict(module='ConfigMC.tla', cfg='ConfigMCdeep.cfg', tier='thorough', heap='8g')],
                trace=[dict(module='ConfigTrace.tla', cfg='ConfigTrace.cfg')]),
    'C16': dict(driver=['handles.cpp'], san='asanub',
                mc=[dict(module='HandlesMC.tla', cfg='HandlesMC.cfg', min_states=20000),
                    dict(module='HandlesMC.tla', cfg='HandlesMC3.cfg', min_states=300000),
                    dict(module='HandlesMC.tla', cfg='HandlesMCdeep.cfg', tier='thorough', heap='8g')],
                also=[dict(driver=['threads.cpp'], san='tsan')],
                trace=[dict(module='HandlesTrace.tla', cfg='HandlesTrace.cfg'),
                       dict(module='HandlesTrace.tla', cfg='HandlesTrace.cfg', file='threads')]),
    'C18': dict(driver=['report.cpp'],
                mc=[dict(module='ReportMC.tla', cfg='ReportMC.cfg', min_states=200000),
                    dict(module='ReportMC.tla', cfg='ReportMC2.cfg', min_states=40000),
                    dict(module='ReportMC.tla', cfg='ReportMCdeep.cfg', tier='thorough', heap='8g')],
                trace=[dict(module='ReportTrace.tla', cfg='ReportTrace.cfg')]),
    'C19': dict(driver=['observers.cpp'], libs=['-Wl,--allow-multiple-definition'],
                mc=[dict(module='ObserversMC.tla', cfg='ObserversMC.cfg', min_states=50000),
                    dict(module='ObserversMC.tla', cfg='ObserversMC2.cfg', min_states=20000),
                    dict(module='ObserversMC.tla', cfg='ObserversMCdeep.cfg', tier='thorough', heap='8g')],
                trace=[dict(module='ObserversTrace.tla', cfg='ObserversTrace.cfg', silent=True)]),
    'C20': dict(driver=['choice.cpp'],
                mc=[dict(module='ChoiceMC.tla', cfg='ChoiceMC.cfg', min_states=50000),
                    dict(module='ChoiceMC.tla', cfg='ChoiceMCdeep.cfg', tier='thorough', heap='8g')],
                trace=[dict(module='ChoiceTrace.tla', cfg='ChoiceTrace.cfg')]),
    'C21': dict(driver=['bits.cpp'],
                mc=[dict(module='BitsMC.tla', cfg='BitsMC.cfg', min_states=3500),
                    dict(module='BitsMC.tla', cfg='BitsMCdeep.cfg', tier='thorough')],
                trace=[dict(module='BitsTrace.tla', cfg='BitsTrace.cfg')]),
    'C22': dict(driver=['show.cpp'],
                mc=[dict(module='ShowMC.tla', cfg='ShowMC.cfg', min_states=150000),
                    dict(module='ShowMC.tla', cfg='ShowMCdeep.cfg', tier='thorough', heap='8g')],
                trace=[dict(module='ShowTrace.tla', cfg='ShowTrace.cfg')], san='asan'),
    'C23': dict(driver=['adapters.cpp', 'adapters_gtest.cpp', 'adapters_boost.cpp', 'adapters_catch.cpp', 'adapters_catch_prefixed.cpp', 'adapters_doctest.cpp',
                        'adapters_optional.cpp'], must_compile=['adapters_doctest.cpp', 'adapters_optional.cpp'],
                mc=[dict(module='AdaptersMC.tla', cfg='AdaptersMC.cfg', min_states=1000),
                    dict(module='ForwardMC.tla', cfg='ForwardMC.cfg', min_states=1000)],
                trace=[dict(module='AdaptersTrace.tla', cfg='AdaptersTrace.cfg')],
                flags=['-std=c++20', '-I' + os.path.join(HERE, 'drivers/standin')] + ['-I/repo/extras/%s/include' % x for x in ('gtest', 'gmock', 'catch', 'boost', 'boost_test', 'doctest')],
                libs=['-lgmock', '-lgtest', '-lCatch2', '-lboost_unit_test_framework']),
}
