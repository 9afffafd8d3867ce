R={}
C='grpc/federation/cel.go'
R['evalvalues_shared']={C:[('''func (v *LocalValue) getEvalValues(ctx context.Context) map[string]any {
	ret := map[string]any{ContextVariableName: grpcfedcel.NewContextValue(ctx)}
	for k, v := range v.evalValues {
		ret[k] = v
	}
	return ret
}''','''func (v *LocalValue) getEvalValues(ctx context.Context) map[string]any {
	v.evalValues[ContextVariableName] = grpcfedcel.NewContextValue(ctx)
	return v.evalValues
}''')]}
R['mapiter_order']={C:[('''func (v *MapIteratorValue) getEvalValues(ctx context.Context) map[string]any {
	ret := map[string]any{ContextVariableName: grpcfedcel.NewContextValue(ctx)}
	for k, v := range v.evalValues {
		ret[k] = v
	}
	return ret
}''','''func (v *MapIteratorValue) getEvalValues(_ context.Context) map[string]any {
	return v.evalValues
}''')]}
R['svcvar_alias']={C:[('newEnvOpts := append([]cel.EnvOption{}, envOpts...)','newEnvOpts := append(envOpts[:0:len(envOpts)], envOpts...)')]}
R['svcvar_alias2']={C:[('newEnvOpts := append([]cel.EnvOption{}, envOpts...)','newEnvOpts := envOpts')]}
R['local_alias']={C:[('''	newEnvOpts = append(
		append(newEnvOpts, envOpts...),
		cel.Variable''','''	newEnvOpts = append(
		envOpts,
		cel.Variable''')]}
R['iter_alias']={C:[('iterValue.envOpts = append(append([]cel.EnvOption{}, envOpts...), cel.Variable(name, typ))','iterValue.envOpts = append(envOpts, cel.Variable(name, typ))')]}
R['iter_accumulate']={C:[('iterValue.envOpts = append(append([]cel.EnvOption{}, envOpts...), cel.Variable(name, typ))','iterValue.envOpts = append(append(iterValue.envOpts, envOpts...), cel.Variable(name, typ))')]}
R['cachemap_get']={C:[('''	m.mu.RLock()
	cache := m.cacheMap[index]
	m.mu.RUnlock()
	return cache''','''	if len(m.cacheMap) == 0 {
		return nil
	}
	m.mu.RLock()
	cache := m.cacheMap[index]
	m.mu.RUnlock()
	return cache''')]}
R['isset_ptr']={C:[('''		if rv.Kind() == reflect.Pointer {
			rv = rv.Elem()
		}
		if rv.Kind() != reflect.Struct {
			return false
		}
''','''		if rv.Kind() != reflect.Struct {
			return false
		}
''')]}
R['isset_true']={C:[('return !rv.FieldByName(fieldName).IsZero()','return rv.FieldByName(fieldName).IsValid()')]}
R['oneof_getter']={C:[('MethodByName(getterNames[idx])','MethodByName(getterNames[0])'),('for idx, oneofType := range','for _, oneofType := range')]}
R['oneof_zero']={C:[('''			// prevent panic if no value assigned
			return nil, fmt.Errorf("%s is invalid field", fieldName)''','''			// prevent panic if no value assigned
			return zeroValue.Interface(), nil''')]}
R['fieldnames_found']={C:[('''	fieldMap, exists := h.structFieldMap[structType]
	if !exists {
		return nil, false
	}
	field, found := fieldMap[fieldName]
	return field, found''','''	fieldMap, exists := h.structFieldMap[structType]
	if !exists {
		return nil, false
	}
	return fieldMap[fieldName], exists''')]}
R['range_stop']={C:[('''			return false
		}
		return true
	})
	return &CELTypeHelper''','''			return false
		}
		return f.Package() != protoreflect.FullName(pkgName)
	})
	return &CELTypeHelper''')]}
R['attr_nil']={C:[('''				if enumValueAttrMap == nil {
					return celtypes.NewErr(fmt.Sprintf(`could not find enum value attribute map from %q`, enumName))
				}
				return''','''				return''')]}
R['do_no_err']={C:[('''			result: ret,
			err:    err,
		}
		v.sgCache.mu.Unlock()''','''			result: ret,
		}
		v.sgCache.mu.Unlock()''')]}
R['do_cache_only_ok']={C:[('''		v.sgCache.mu.Lock()
		v.sgCache.resultMap[name]''','''		if err != nil {
			return ret, err
		}
		v.sgCache.mu.Lock()
		v.sgCache.resultMap[name]''')]}
R['ignore_do']={C:[('''	// doesn't use cache to create response variable by same name key.
	return evalDef(ctx, value, def)''','''	return EvalDef(ctx, value, def)''')]}
R['def_ifcache']={C:[('''				return EvalCEL(ctx, &EvalCELRequest{
					Value:      value,
					Expr:       def.By,
					OutType:    reflect.TypeOf(v),
					CacheIndex: def.ByCacheIndex,''','''				return EvalCEL(ctx, &EvalCELRequest{
					Value:      value,
					Expr:       def.By,
					OutType:    reflect.TypeOf(v),
					CacheIndex: def.IfCacheIndex,''')]}
R['def_cond_setter']={C:[('''	value.lock()
	if err := def.Setter(value, v); err != nil {
		errs = append(errs, err)
	}
	value.setEnvOptValue(name, def.Type)
	value.setEvalValue(name, v)
	value.unlock()

	if len(errs) == 1 {
		return errs[0]
	} else if len(errs) > 1 {
		return errors.Join(errs...)
	}
	return nil
}

func EvalDefMap''','''	value.lock()
	if err := def.Setter(value, v); err != nil {
		errs = append(errs, err)
	}
	if cond {
		value.setEnvOptValue(name, def.Type)
		value.setEvalValue(name, v)
	}
	value.unlock()

	if len(errs) == 1 {
		return errs[0]
	} else if len(errs) > 1 {
		return errors.Join(errs...)
	}
	return nil
}

func EvalDefMap''')]}
R['def_validation_code']={C:[('if _, ok := grpcstatus.FromError(err); ok {','if grpcstatus.Code(err) != grpccodes.OK {')]}
R['def_run_nil']={C:[('''		if ret != nil {
			v = ret.(T)
		}
		if runErr != nil {
			errs = append(errs, runErr)
		}
	}

	value.lock()
	if err := def.Setter(value, v); err != nil {
		errs = append(errs, err)
	}
	value.setEnvOptValue(name, def.Type)
	value.setEvalValue(name, v)
	value.unlock()

	if len(errs) == 1 {
		return errs[0]
	} else if len(errs) > 1 {
		return errors.Join(errs...)
	}
	return nil
}

func evalMap''','''		if ret != nil {
			v = ret.(T)
		} else if runErr != nil {
			errs = append(errs, runErr)
		}
	}

	value.lock()
	if err := def.Setter(value, v); err != nil {
		errs = append(errs, err)
	}
	value.setEnvOptValue(name, def.Type)
	value.setEvalValue(name, v)
	value.unlock()

	if len(errs) == 1 {
		return errs[0]
	} else if len(errs) > 1 {
		return errors.Join(errs...)
	}
	return nil
}

func evalMap''')]}
R['map_partial']={C:[('''		if err != nil {
			return nil, err
		}
		ret = reflect.Append(ret, reflect.ValueOf(v))
	}
	return ret.Interface(), nil''','''		if err != nil {
			return ret.Interface(), err
		}
		ret = reflect.Append(ret, reflect.ValueOf(v))
	}
	return ret.Interface(), nil''')]}
R['map_nilskip']={C:[('''		ret = reflect.Append(ret, reflect.ValueOf(v))''','''		if v == nil {
			continue
		}
		ret = reflect.Append(ret, reflect.ValueOf(v))''')]}
R['map_src_unlocked']={C:[('''	src := srcFunc(value)
	value.runlock()
''','''	value.runlock()
	src := srcFunc(value)
''')]}
R['eval_rlock']={C:[('''	req.Value.lock()
	defer req.Value.unlock()

	if celCacheMap''','''	req.Value.rlock()
	defer req.Value.runlock()

	if celCacheMap''')]}
R['eval_unlock_early']={C:[('''	req.Value.lock()
	defer req.Value.unlock()

	if celCacheMap := getCELCacheMap(ctx); celCacheMap == nil {
		return nil, ErrCELCacheMap
	}
	if req.CacheIndex == 0 {
		return nil, ErrCELCacheIndex
	}

	program, err := createCELProgram(ctx, req)
	if err != nil {
		return nil, err
	}
	out, _, err := program.ContextEval(ctx, req.Value.getEvalValues(ctx))
''','''	if celCacheMap := getCELCacheMap(ctx); celCacheMap == nil {
		return nil, ErrCELCacheMap
	}
	if req.CacheIndex == 0 {
		return nil, ErrCELCacheIndex
	}

	req.Value.lock()
	program, err := createCELProgram(ctx, req)
	req.Value.unlock()
	if err != nil {
		return nil, err
	}
	out, _, err := program.ContextEval(ctx, req.Value.getEvalValues(ctx))
''')]}
R['eval_cache_on_eval']={C:[('''	if req.CacheIndex == 0 {
		return nil, ErrCELCacheIndex
	}
''','''	if req.CacheIndex < 0 {
		return nil, ErrCELCacheIndex
	}
''')]}
R['eval_eval']={C:[('program.ContextEval(ctx, req.Value.getEvalValues(ctx))','program.Eval(req.Value.getEvalValues(ctx))')]}
R['eval_optnone']={C:[('''		out = opt.GetValue()
	}
	if _, ok := out.(celtypes.Null); ok {''','''		out = opt.GetValue()
	} else if _, ok := out.(celtypes.Null); ok {''')]}
R['prog_cache_early']={C:[('''	program, err := env.Program(ast)
	if err != nil {
		return nil, err
	}

	setCELProgramCache(ctx, req.CacheIndex, program)
	return program, nil''','''	program, err := env.Program(ast)
	setCELProgramCache(ctx, req.CacheIndex, program)
	if err != nil {
		return nil, err
	}
	return program, nil''')]}
R['ast_dollar_once']={C:[('strings.Replace(req.Expr, "$", MessageArgumentVariableName, -1)','strings.Replace(req.Expr, "$", MessageArgumentVariableName, 1)')]}
R['ast_recompile_noerr']={C:[('''		ast, iss = env.Compile(expr)
		if iss.Err() != nil {
			return nil, iss.Err()
		}
	}
	return ast, nil''','''		if resolved, iss := env.Compile(expr); iss.Err() == nil {
			ast = resolved
		}
	}
	return ast, nil''')]}
R['grpcerr_continue']={C:[('''				slog.String("detail", fmt.Sprintf("%T", detail)),
			)
			continue''','''				slog.String("detail", fmt.Sprintf("%T", detail)),
			)
			break''')]}
R['grpcerr_custom']={C:[('''		default:
			grpcErr.CustomMessages''','''		case *anypb.Any:
			grpcErr.CustomMessages''')]}
R['grpcerr_nolock']={C:[('''	value.lock()
	value.setEvalValue("error", grpcErr)
	value.unlock()''','''	value.rlock()
	value.setEvalValue("error", grpcErr)
	value.runlock()''')]}
R['null_lastid']={C:[('''	for k := range checkedExpr.GetTypeMap() {
		if lastID < k {
			lastID = k
		}
	}
''','')]}
R['null_both']={C:[('''			if target != nil {
				// maybe null == null
				return nil
			}
			target = lhs''','''			target = lhs''')]}
R['null_resolved']={C:[('''	r.resolved = false
}''','''}''')]}
R['visit_target']={C:[('''	for _, arg := range call.GetArgs() {
		v.visit(arg)
	}
	v.visit(call.GetTarget())''','''	if target := call.GetTarget(); target != nil {
		v.visit(target)
		return
	}
	for _, arg := range call.GetArgs() {
		v.visit(arg)
	}''')]}
R['visit_comp']={C:[('''	v.visit(comp.GetLoopCondition())
''','')]}
R['setcel_after']={C:[('''	param.Value.lock()
	defer param.Value.unlock()

	if err := param.Setter(out.(T)); err != nil {
		return err
	}
	return nil''','''	if err := param.Setter(out.(T)); err != nil {
		return err
	}
	return nil''')]}
