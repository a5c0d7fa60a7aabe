SC(churn) SC(tree) SC(life) SC(close) SC(indep) SC(leak) SC(disturb) SC(fail) SC(overflow) SC(hostile) SC(capi) SC(race) SC(equiv) SC(fallback) SC(findings) SC(chroot)
