---------------------------- MODULE ActivityTable ----------------------------
(* Every activity clang is known to record: name in the trace, kind, and what *)
(* its argument means.                                                         *)
Table == {
  <<"AAManager", "AAManager", "Symbol">>,
  <<"ADCEPass", "ADCEPass", "Symbol">>,
  <<"AggressiveInstCombinePass", "AggressiveInstCombinePass", "Symbol">>,
  <<"AlignmentFromAssumptionsPass", "AlignmentFromAssumptionsPass", "Symbol">>,
  <<"Annotation2MetadataPass", "Annotation2MetadataPass", "FilePathOrModule">>,
  <<"AnnotationRemarksPass", "AnnotationRemarksPass", "Symbol">>,
  <<"AssignmentTrackingPass", "AssignmentTrackingPass", "FilePathOrModule">>,
  <<"Backend", "Backend", "Nothing">>,
  <<"BDCEPass", "BDCEPass", "Symbol">>,
  <<"BlockFrequencyAnalysis", "BlockFrequencyAnalysis", "Symbol">>,
  <<"BranchProbabilityAnalysis", "BranchProbabilityAnalysis", "Symbol">>,
  <<"CalledValuePropagationPass", "CalledValuePropagationPass", "FilePathOrModule">>,
  <<"CallGraphAnalysis", "CallGraphAnalysis", "FilePathOrModule">>,
  <<"CGProfilePass", "CGProfilePass", "FilePathOrModule">>,
  <<"CGSCCToFunctionPassAdaptor", "CGSCCToFunctionPassAdaptor", "SymbolOpt">>,
  <<"CodeGen Function", "CodeGenFunction", "CppEntity">>,
  <<"CodeGenPasses", "CodeGenPasses", "Nothing">>,
  <<"ConstantMergePass", "ConstantMergePass", "FilePathOrModule">>,
  <<"ConstraintEliminationPass", "ConstraintEliminationPass", "Symbol">>,
  <<"CoroCleanupPass", "CoroCleanupPass", "Symbol">>,
  <<"CoroEarlyPass", "CoroEarlyPass", "Symbol">>,
  <<"CoroElidePass", "CoroElidePass", "Symbol">>,
  <<"CoroSplitPass", "CoroSplitPass", "Nothing">>,
  <<"CorrelatedValuePropagationPass", "CorrelatedValuePropagationPass", "Symbol">>,
  <<"DeadArgumentEliminationPass", "DeadArgumentEliminationPass", "FilePathOrModule">>,
  <<"DebugConstGlobalVariable", "DebugConstGlobalVariable", "CppEntity">>,
  <<"DebugFunction", "DebugFunction", "CppEntity">>,
  <<"DebugGlobalVariable", "DebugGlobalVariable", "CppEntity">>,
  <<"DebugType", "DebugType", "CppEntity">>,
  <<"DevirtSCCRepeatedPass", "DevirtSCCRepeatedPass", "SymbolOpt">>,
  <<"DivRemPairsPass", "DivRemPairsPass", "Symbol">>,
  <<"DominatorTreeAnalysis", "DominatorTreeAnalysis", "Symbol">>,
  <<"DSEPass", "DSEPass", "Symbol">>,
  <<"EarlyCSEPass", "EarlyCSEPass", "Symbol">>,
  <<"EliminateAvailableExternallyPass", "EliminateAvailableExternallyPass", "FilePathOrModule">>,
  <<"ExecuteCompiler", "ExecuteCompiler", "Nothing">>,
  <<"Float2IntPass", "Float2IntPass", "Symbol">>,
  <<"ForceFunctionAttrsPass", "ForceFunctionAttrsPass", "FilePathOrModule">>,
  <<"Frontend", "Frontend", "Nothing">>,
  <<"FunctionToLoopPassAdaptor", "FunctionToLoopPassAdaptor", "Symbol">>,
  <<"GlobalDCEPass", "GlobalDCEPass", "FilePathOrModule">>,
  <<"GlobalOptPass", "GlobalOptPass", "FilePathOrModule">>,
  <<"GlobalsAA", "GlobalsAA", "FilePathOrModule">>,
  <<"GVNPass", "GVNPass", "Symbol">>,
  <<"IndVarSimplifyPass", "IndVarSimplifyPass", "UnnamedLoop">>,
  <<"InferFunctionAttrsPass", "InferFunctionAttrsPass", "FilePathOrModule">>,
  <<"InjectTLIMappings", "InjectTLIMappings", "Symbol">>,
  <<"InlinerPass", "InlinerPass", "SymbolOpt">>,
  <<"InnerAnalysisManagerProxy<CGSCCAnalysisManager, Module>", "ModuleCGSCCAnalysis", "FilePathOrModule">>,
  <<"InstantiateClass", "InstantiateClass", "CppEntity">>,
  <<"InstantiateFunction", "InstantiateFunction", "CppEntity">>,
  <<"InstCombinePass", "InstCombinePass", "Symbol">>,
  <<"InstSimplifyPass", "InstSimplifyPass", "Symbol">>,
  <<"InvalidateAnalysisPass<llvm::AAManager>", "InvalidateAliasAnalysisPass", "Symbol">>,
  <<"InvalidateAnalysisPass<llvm::ShouldNotRunFunctionPassesAnalysis>", "InvalidateShouldNotRunFunctionPasses", "Symbol">>,
  <<"IPSCCPPass", "IPSCCPPass", "FilePathOrModule">>,
  <<"JumpThreadingPass", "JumpThreadingPass", "Symbol">>,
  <<"LazyCallGraphAnalysis", "LazyCallGraphAnalysis", "FilePathOrModule">>,
  <<"LCSSAPass", "LCSSAPass", "Symbol">>,
  <<"LibCallsShrinkWrapPass", "LibCallsShrinkWrapPass", "Symbol">>,
  <<"LICMPass", "LICMPass", "UnnamedLoopOpt">>,
  <<"LoopAnalysis", "LoopAnalysis", "Symbol">>,
  <<"LoopDeletionPass", "LoopDeletionPass", "UnnamedLoop">>,
  <<"LoopDistributePass", "LoopDistributePass", "Symbol">>,
  <<"LoopFullUnrollPass", "LoopFullUnrollPass", "UnnamedLoop">>,
  <<"LoopIdiomRecognizePass", "LoopIdiomRecognizePass", "UnnamedLoop">>,
  <<"LoopInstSimplifyPass", "LoopInstSimplifyPass", "UnnamedLoop">>,
  <<"LoopLoadEliminationPass", "LoopLoadEliminationPass", "Symbol">>,
  <<"LoopRotatePass", "LoopRotatePass", "UnnamedLoop">>,
  <<"LoopSimplifyCFGPass", "LoopSimplifyCFGPass", "UnnamedLoop">>,
  <<"LoopSimplifyPass", "LoopSimplifyPass", "Symbol">>,
  <<"LoopSinkPass", "LoopSinkPass", "Symbol">>,
  <<"LoopUnrollPass", "LoopUnrollPass", "Symbol">>,
  <<"LoopVectorizePass", "LoopVectorizePass", "Symbol">>,
  <<"LowerConstantIntrinsicsPass", "LowerConstantIntrinsicsPass", "Symbol">>,
  <<"LowerExpectIntrinsicPass", "LowerExpectIntrinsicPass", "Symbol">>,
  <<"MemCpyOptPass", "MemCpyOptPass", "Symbol">>,
  <<"MemorySSAAnalysis", "MemorySSAAnalysis", "Symbol">>,
  <<"MergedLoadStoreMotionPass", "MergedLoadStoreMotionPass", "Symbol">>,
  <<"ModuleInlinerWrapperPass", "ModuleInlinerWrapperPass", "FilePathOrModule">>,
  <<"ModuleToFunctionPassAdaptor", "ModuleToFunctionPassAdaptor", "FilePathOrModule">>,
  <<"ModuleToPostOrderCGSCCPassAdaptor", "ModuleToPostOrderCGSCCPassAdaptor", "FilePathOrModule">>,
  <<"OpenMPOptCGSCCPass", "OpenMPOptCGSCCPass", "Nothing">>,
  <<"OpenMPOptPass", "OpenMPOptPass", "FilePathOrModule">>,
  <<"OptFunction", "OptFunction", "Symbol">>,
  <<"Optimizer", "Optimizer", "Nothing">>,
  <<"OptModule", "OptModule", "FilePathOrModule">>,
  <<"ParseClass", "ParseClass", "CppEntity">>,
  <<"ParseTemplate", "ParseTemplate", "CppEntity">>,
  <<"PassManager<llvm::Function>", "LlvmFunctionPassManager", "SymbolOpt">>,
  <<"PassManager<llvm::Loop, llvm::LoopAnalysisManager, llvm::LoopStandardAnalysisResults &, llvm::LPMUpdater &>", "LoopAnalysisManager", "Nothing">>,
  <<"PassManager<Function>", "FunctionPassManager", "SymbolOpt">>,
  <<"PassManager<LazyCallGraph::SCC, CGSCCAnalysisManager, LazyCallGraph &, CGSCCUpdateResult &>", "LazyCallGraphCGSCCAnalysisPassManager", "Symbol">>,
  <<"PassManager<Loop, LoopAnalysisManager, LoopStandardAnalysisResults &, LPMUpdater &>", "LoopAnalysisPassManager", "UnnamedLoop">>,
  <<"PerformPendingInstantiations", "PerformPendingInstantiations", "Nothing">>,
  <<"PerFunctionPasses", "PerFunctionPasses", "Nothing">>,
  <<"PerModulePasses", "PerModulePasses", "Nothing">>,
  <<"PostDominatorTreeAnalysis", "PostDominatorTreeAnalysis", "Symbol">>,
  <<"PostOrderFunctionAttrsPass", "PostOrderFunctionAttrsPass", "SymbolOpt">>,
  <<"PromotePass", "PromotePass", "Symbol">>,
  <<"ReassociatePass", "ReassociatePass", "Symbol">>,
  <<"RecomputeGlobalsAAPass", "RecomputeGlobalsAAPass", "FilePathOrModule">>,
  <<"RelLookupTableConverterPass", "RelLookupTableConverterPass", "FilePathOrModule">>,
  <<"RequireAnalysisPass<llvm::GlobalsAA, llvm::Module>", "ModuleGlobalsAAPass", "FilePathOrModule">>,
  <<"RequireAnalysisPass<llvm::OptimizationRemarkEmitterAnalysis, llvm::Function>", "RequireFunctionOptimizationRemarkEmissionPass", "Symbol">>,
  <<"RequireAnalysisPass<llvm::ProfileSummaryAnalysis, llvm::Module>", "RequireModuleProfileSummaryAnalysisPass", "FilePathOrModule">>,
  <<"RequireAnalysisPass<llvm::GlobalsAA, llvm::Module, llvm::AnalysisManager<Module>>", "RequireModuleGlobalsAliasAnalysisPass", "FilePathOrModule">>,
  <<"ReversePostOrderFunctionAttrsPass", "ReversePostOrderFunctionAttrsPass", "FilePathOrModule">>,
  <<"RunLoopPass", "RunLoopPass", "String">>,
  <<"RunPass", "RunPass", "String">>,
  <<"ScalarEvolutionAnalysis", "ScalarEvolutionAnalysis", "Symbol">>,
  <<"SCCPPass", "SCCPPass", "Symbol">>,
  <<"SimpleLoopUnswitchPass", "SimpleLoopUnswitchPass", "UnnamedLoop">>,
  <<"SimplifyCFGPass", "SimplifyCFGPass", "Symbol">>,
  <<"SLPVectorizerPass", "SLPVectorizerPass", "Symbol">>,
  <<"Source", "Source", "FilePathOrModule">>,
  <<"SpeculativeExecutionPass", "SpeculativeExecutionPass", "Symbol">>,
  <<"SROAPass", "SROAPass", "Symbol">>,
  <<"TailCallElimPass", "TailCallElimPass", "Symbol">>,
  <<"TargetIRAnalysis", "TargetIRAnalysis", "Symbol">>,
  <<"VectorCombinePass", "VectorCombinePass", "Symbol">>,
  <<"WarnMissedTransformationsPass", "WarnMissedTransformationsPass", "Symbol">>
}
=============================================================================
