1;
function s = num(v)
  s = {}; v = double(v(:)); for k = 1:numel(v), if isnan(v(k)), s{k} = 'nan'; elseif isinf(v(k)), s{k} = {'-inf', 'inf'}{1 + (v(k) > 0)}; else s{k} = sprintf('%.17g', v(k)); end, end
end
function s = one(v)
  s = num(v){1};
end
function r = ints(v)
  r = num2cell(v(:)');
end
warning('off');
a = argv(); fid = fopen([a{1} '/curves.ndjson'], 'w'); seed = str2num(a{2}); rand('state', seed);
n = 420; if strcmp(a{3}, 'thorough'), n = 6000; end
for t = 1:n
  m = floor(rand * 14); if rand < .1, m = 10 + floor(rand * 30); end
  labels = floor(rand(1, m) * 3) - 1; if rand < .5, labels(labels == 0) = -1; end
  if rand < .15, labels = abs(labels); elseif rand < .1, labels = -abs(labels); elseif rand < .2, labels = labels .* (1 + floor(rand(1, m) * 3)); end
  if rand < .6, scores = randperm(max(1, 2 * m))(1:m) - m; else scores = floor(rand(1, m) * 4) - 2; end
  if rand < .25, d = 10 * ceil(rand * 2); if m < d, m = d; labels = -ones(1, m); labels(randperm(m)(1:d)) = 1; scores = randperm(m); else labels(:) = -1; labels(randperm(m)(1:d)) = 1; end, end
  recorded = scores; if rand < .4 && m > 0, hide = rand(1, m) < .3; scores(hide) = -inf; recorded(hide) = -100000; end
  args = {}; numPos = -1; numNeg = -1; stable = rand < .3; all = rand < .2;
  if rand < .2, numPos = sum(labels > 0) + floor(rand * 4); args = [args {'numPositives', numPos}]; end
  if rand < .2, numNeg = sum(labels < 0) + floor(rand * 4); args = [args {'NUMNEGATIVES', numNeg}]; end
  if all, args = [args {'includeInf', true}]; end
  if stable || rand < .1, args = [args {'stable', stable}]; end
  ev = struct('e', '', 'labels', {ints(labels)}, 'scores', {ints(recorded)}, 'numPos', numPos, 'numNeg', numNeg, 'all', all, 'stable', stable);
  if rand < .3, args = fliplr(args); for k = 1:2:numel(args), args([k k + 1]) = args([k + 1 k]); end, end
  if rand < .3, labels = labels'; end
  if rand < .3, scores = scores'; end
  try
    switch floor(rand * 5)
      case {0, 1}
        ev.e = 'Roc'; ev.info = rand < .7;
        if ev.info, [x, y, i] = vl_roc(labels, scores, args{:}); ev.auc = one(i.auc); ev.eer = one(i.eer); ev.threshold = one(i.eerThreshold); else [x, y] = vl_roc(labels, scores, args{:}); end
        ev.tpr = num(x); ev.tnr = num(y);
      case {2, 3}
        ev.e = 'Pr'; ev.info = rand < .7; ev.prior = -1; ev.interpolate = rand < .3;
        if rand < .3, ev.prior = ceil(rand * 7) / 8; args = [args {'normalizePrior', ev.prior}]; end
        ev.prior = one(ev.prior); if ev.interpolate, args = [{'interpolate', true} args]; end
        if ev.info, [x, y, i] = vl_pr(labels, scores, args{:}); ev.auc = one(i.auc); ev.ap = one(i.ap); ev.eleven = one(i.ap_interp_11); ev.legacy = one(i.auc_pa08); else [x, y] = vl_pr(labels, scores, args{:}); end
        ev.recall = num(x); ev.precision = num(y);
      otherwise
        ev.e = 'Det'; [x, y] = vl_det(labels, scores, args{:}); ev.miss = num(x); ev.alarm = num(y);
    end
  catch err
    ev.e = 'Crash'; ev.in = err.message;
  end
  fprintf(fid, '%s\n', jsonencode(ev));
end
fclose(fid);
