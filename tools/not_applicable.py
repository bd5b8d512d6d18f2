NA = {
 "C41": "convergence of the quasi-Newton saddle search to an index-1 stationary point is a runtime quantity of the iteration (step sizes, update formulas, starting point); no sound static bound is in reach; that success is only reported with the solver's stop criterion is C13",
 "C42": "accuracy near the plane and far away is about floating point cancellation in the kernels for particular magnitudes; bounding it needs numerical error analysis over the whole domain, outside static program analysis in reach here; the formulas themselves are C03/C04",
 "C43": "termination of the refinement depends on the areas produced by the external triangle/fastlap programs and runtime field values",
}
